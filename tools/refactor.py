#!/usr/bin/env python3
"""tools/refactor.py WORKDIR [GROUP...]: apply groups of behaviour-preserving rewrites to a copy of /repo, run its tests, then every
quick check; every check must exit 0. A development aid; runs in a mount namespace with copies of /repo and /verif.
Options: --only P01,P02 (checks), --one NAME (a single rewrite)."""
import concurrent.futures, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = {}
def r(group, name, file, *pairs):
    G.setdefault(group, []).append((name, file, pairs))

TOGGLE_N = """            // We simplify the loop logic below in which the high bit of every
            // byte but the last is set, by pre-emptively setting the high
            // bit of the final byte, and unconditionally toggling the high
            // bit in every loop iteration.
            match ret.last_mut() {
                Some(last) => *last ^= 0x80,
                None => unreachable!(),
            }

            for byt in ret.iter_mut() {
                *byt ^= 0x80
            }

            ret
"""
r("a", "n-serialize-slice", "src/zarith.rs", (TOGGLE_N, """            let last = ret.len() - 1;
            for byt in &mut ret[..last] {
                *byt |= 0x80;
            }
            ret
"""))
r("a", "z-deserialize-from-parts", "src/zarith.rs", ("""                Some(mut i) => {
                    i <<= 6;
                    i |= BigUint::from(bot6);
                    Self(BigInt::from_biguint(sg, i))
                }
""", """                Some(i) => {
                    let magnitude = BigInt::from((i << 6u8) + BigUint::from(bot6));
                    Self(if sg == Sign::Minus { -magnitude } else { magnitude })
                }
"""))
r("b", "n-serialize-enumerate", "src/zarith.rs", (TOGGLE_N, """            let n = ret.len();
            ret.iter_mut()
                .enumerate()
                .filter(|(ix, _)| ix + 1 < n)
                .for_each(|(_, byt)| *byt += 0x80);
            ret
"""), ("let lo7: Vec<u8> = bytes.into_iter().map(|b| b & 0x7f).collect();\n            match BigUint::from_radix_le", """let mut lo7: Vec<u8> = Vec::new();
            for b in bytes {
                lo7.push(b % 0x80);
            }
            match BigUint::from_radix_le"""))
r("b", "z-serialize-safe", "src/zarith.rs", ("""            unsafe {
                let first_byte = ret.first_mut().unwrap_unchecked();

                *first_byte >>= 1u8;
                match sg {
                    Sign::Minus => *first_byte |= 0x40u8,
                    _ => {}
                };
            }
""", """            ret[0] /= 2;
            if matches!(sg, Sign::Minus) {
                ret[0] += 0x40;
            }
"""), ("""            unsafe {
                let last_byte = ret.get_unchecked_mut(final_ix);
                *last_byte ^= 0x80;
            }

            for byt in ret.iter_mut() {
                *byt ^= 0x80
            }
""", """            for (ix, byt) in ret.iter_mut().enumerate() {
                if ix < final_ix {
                    *byt |= 0x80;
                }
            }
"""))
r("a", "hex-of-bytes-table", "src/hexstring.rs", ("""        for &byte in bytes {
            match write!(&mut hex, "{byte:02x}") {
                Ok(_) => (),
                Err(_) => unreachable!("write to String should never fail"),
            };
        }
        hex
""", """        const DIGITS: &[u8; 16] = b"0123456789abcdef";
        for &byte in bytes {
            hex.push(DIGITS[(byte >> 4) as usize] as char);
            hex.push(DIGITS[(byte & 0xf) as usize] as char);
        }
        hex
"""), ("    use std::fmt::Write;\n", ""))
r("b", "hex-of-bytes-from-digit", "src/hexstring.rs", ("""        for &byte in bytes {
            match write!(&mut hex, "{byte:02x}") {
                Ok(_) => (),
                Err(_) => unreachable!("write to String should never fail"),
            };
        }
        hex
""", """        hex.extend(bytes.iter().flat_map(|&byte| {
            let digit = |x: u8| char::from_digit(u32::from(x), 16).unwrap();
            [digit(byte / 16), digit(byte % 16)]
        }));
        hex
"""), ("    use std::fmt::Write;\n", ""))
r("a", "byte-of-hex-match", "src/hexstring.rs", ("""        let hi = (hi as char).to_digit(16)?;
        let lo = (lo as char).to_digit(16)?;
        Some((hi << 4 | lo) as u8)
""", """        fn digit(x: u8) -> Option<u8> {
            match x {
                b'0'..=b'9' => Some(x - b'0'),
                b'a'..=b'f' => Some(x - b'a' + 10),
                b'A'..=b'F' => Some(x - b'A' + 10),
                _ => None,
            }
        }
        digit(hi).and_then(|h| digit(lo).map(|l| h * 16 + l))
"""))
r("b", "bytes-of-hex-collect", "src/hexstring.rs", ("""        let bytes_len: usize = ascii_len / 2;

        let mut dst = Vec::with_capacity(bytes_len);

        for pair in src.as_bytes().chunks_exact(2) {
            match byte_of_hex(pair[0], pair[1]) {
                Some(word) => dst.push(word),
                None => return Err(HexConvError::NonHex(src.to_string())),
            }
        }
        Ok(dst)
""", """        src.as_bytes()
            .chunks(2)
            .map(|pair| byte_of_hex(pair[0], pair[1]))
            .collect::<Option<Vec<u8>>>()
            .ok_or_else(|| HexConvError::NonHex(src.to_string()))
"""), ("""        for (pair, &byte) in src.as_bytes().chunks_exact(2).zip(tgt) {
            if byte_of_hex(pair[0], pair[1]) != Some(byte) {
                return false;
            }
        }
        true
""", """        let digits = src.as_bytes();
        (0..bytes_len).all(|i| byte_of_hex(digits[2 * i], digits[2 * i + 1]) == Some(tgt[i]))
"""))
TST = """        let mut ret: Vec<u8> = Vec::with_capacity(self.remainder());
        loop {
            match self.consume_byte() {
                Ok(byte) => {
                    ret.push(byte);
                    if is_terminal(byte) {
                        break Ok(ret);
                    }
                }
                Err(_) => {
                    break Err(ParseError::from(TokenError::NonTerminating(ret)));
                }
            }
        }
"""
r("a", "take-self-terminating-while", "src/parse/mod.rs", (TST, """        let mut ret: Vec<u8> = Vec::new();
        while let Ok(byte) = self.consume_byte() {
            ret.push(byte);
            if is_terminal(byte) {
                return Ok(ret);
            }
        }
        Err(ParseError::from(TokenError::NonTerminating(ret)))
"""))
r("b", "take-self-terminating-done", "src/parse/mod.rs", (TST, """        let mut ret: Vec<u8> = Vec::with_capacity(self.remainder());
        let mut done = false;
        while !done {
            let byte = match self.consume_byte() {
                Ok(byte) => byte,
                Err(_) => return Err(TokenError::NonTerminating(ret).into()),
            };
            done = is_terminal(byte);
            ret.push(byte);
        }
        Ok(ret)
"""))
r("a", "byteparser-consume-helper", "src/parse/mod.rs", ("""        fn consume_byte(&mut self) -> ParseResult<u8> {
            let (ix, adv) = self.offset.advance(1);
            if adv {
                Ok(self.buffer.get_byte(ix))
            } else {
                Err(ParseError::Window(
                    super::error::WindowError::ConsumeWouldExceedLimit {
                        offset: ix,
                        requested: 1,
                        limit: self.view_len(),
                    },
                ))
            }
        }
""", """        fn consume_byte(&mut self) -> ParseResult<u8> {
            self.consume(1).map(|bytes| bytes[0])
        }
"""), ("""            let rem = self.offset.rem();
            let delta = usize::min(rem, nbytes);
            if let (_, true) = self.offset.advance(delta) {
                Ok(delta)
            } else {
                unreachable!("Overran despite thresholding: {} > {} ??", delta, rem)
            }
        }

        fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
            let (ix, adv) = self.offset.advance(nbytes);
            if adv {
                Ok(())
            } else {
                Err(ParseError::Window(
                    super::error::WindowError::ConsumeWouldExceedLimit {
                        offset: ix,
                        requested: nbytes,
                        limit: self.view_len(),
                    },
                ))
            }
        }
""", """            let delta = if nbytes > self.remainder() { self.remainder() } else { nbytes };
            self.skip_exactly(delta)?;
            Ok(delta)
        }

        fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
            self.consume(nbytes).map(|_| ())
        }
"""))
r("b", "take-ints-shift", "src/parse/mod.rs", ("        self.consume_arr::<2>().map(u16::from_be_bytes)\n", "        let [hi, lo] = self.consume_arr::<2>()?;\n        Ok(u16::from(hi) << 8 | u16::from(lo))\n"),
  ("        self.consume_arr::<4>().map(i32::from_be_bytes)\n", "        let [a, b, c, d] = self.consume_arr::<4>()?;\n        Ok(i32::from_le_bytes([d, c, b, a]))\n"),
  ("        self.consume_arr::<8>().map(u64::from_be_bytes)\n", "        let bytes = self.consume_arr::<8>()?;\n        Ok(bytes.iter().fold(0u64, |acc, &b| (acc << 8) + u64::from(b)))\n"),
  ("        self.consume_arr::<8>().map(f64::from_be_bytes)\n", "        self.take_u64().map(f64::from_bits)\n"),
  ("        Ok(self.consume_byte()? as i8)\n", "        self.consume_byte().map(|byte| i8::from_be_bytes([byte]))\n"))
r("a", "skip-dynamic-inline", "src/parse/mod.rs", ("""        let lp = self.process_prefix::<L>()?;
        self.skip_exactly(lp)?;
        self.enforce_target()?;
        Ok(lp)
""", """        let len = L::parse_as_usize(self)?;
        self.set_fit(len)?;
        match self.skip_exactly(len).and_then(|_| self.enforce_target()) {
            Ok(()) => Ok(len),
            Err(e) => Err(e),
        }
"""), ("""        while self.remainder() > 0 {
            let _k = self.consume_arr::<M>()?;
            if *k == _k {
                let _v = self.consume_arr::<N>()?;
                return Ok(Some(f(_v)));
            } else {
                let _ = self.skip_exactly(N)?;
                continue;
            }
        }
        Ok(None)
""", """        loop {
            if self.remainder() == 0 {
                return Ok(None);
            }
            let found = self.consume_arr::<M>()?.eq(k);
            if found {
                return self.consume_arr::<N>().map(|v| Some(f(v)));
            }
            self.skip_exactly(N)?;
        }
"""))
r("a", "slice-consume-let-else", "src/parse/mod.rs", ("""                Some(frame) => {
                    let limit = frame.len();
                    if limit >= nbytes {
                        unsafe {
                            let (ret, temp) = frame.take_unchecked(nbytes);
                            *frame = temp;
                            Ok(ret)
                        }
                    } else {
                        Err(ParseError::Window(WindowError::ConsumeWouldExceedLimit {
                            limit,
                            requested: nbytes,
                            offset: 0,
                        }))
                    }
                }
""", """                Some(frame) if nbytes <= frame.len() => {
                    let (ret, temp) = frame.take(nbytes);
                    *frame = temp;
                    Ok(ret)
                }
                Some(frame) => {
                    let limit = frame.len();
                    Err(ParseError::Window(WindowError::ConsumeWouldExceedLimit {
                        limit,
                        requested: nbytes,
                        offset: 0,
                    }))
                }
"""), ("""            if !self.view_stack.has_window() {
                return Err(ParseError::Window(WindowError::CloseWithoutWindow));
            }
            match self.remainder() {
                0 => {
                    let _ = self.view_stack.pop();
                    Ok(())
                }
                residual => Err(ParseError::Window(WindowError::CloseWithResidue {
                    residual,
                })),
            }
""", """            let residual = self.remainder();
            if self.view_stack.has_window() {
                if residual > 0 {
                    return Err(WindowError::CloseWithResidue { residual }.into());
                }
                self.view_stack.pop();
                Ok(())
            } else {
                Err(WindowError::CloseWithoutWindow.into())
            }
"""))
r("b", "slice-skip-via-consume", "src/parse/mod.rs", ("""                    let limit = frame.len();
                    let delta = usize::min(limit, nbytes);
                    unsafe {
                        let (_, temp) = frame.split_unchecked(delta);
                        *frame = temp;
                        Ok(delta)
                    }
""", """                    let delta = nbytes.min(frame.len());
                    *frame = frame.split(delta).1;
                    Ok(delta)
"""), ("""                    if frame.len() >= n {
                        unsafe {
                            let (novel, rem) = frame.split_unchecked(n);
                            *frame = rem;
                            self.view_stack.push_unchecked(novel);
                            Ok(())
                        }
                    } else {
                        Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
                            limit: frame.len(),
                            request: n,
                        }))
                    }
""", """                    let limit = frame.len();
                    if n > limit {
                        return Err(WindowError::OpenWouldExceedWindow { limit, request: n }.into());
                    }
                    let (novel, rem) = frame.split(n);
                    *frame = rem;
                    unsafe { self.view_stack.push_unchecked(novel) };
                    Ok(())
"""))
r("a", "offset-set-fit", "src/internal/offset.rs", ("""        let cur: usize = self.index();
        let bytes_left = self.abs - cur;
        if winsize > bytes_left {
            let request = winsize;
            Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                bytes_left,
                request,
            }))
        } else if winsize > self.rem() {
            // frames hold target offsets; the error speaks of widths
            Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
                limit: self.rem(),
                request: winsize,
            }))
        } else {
            self.frames.push_frame(cur + winsize)
        }
""", """        let request = winsize;
        let cur = self.index();
        let (bytes_left, limit) = (self.abs - cur, self.limit() - cur);
        match (request <= bytes_left, request <= limit) {
            (true, true) => self.frames.push_frame(cur + request),
            (true, false) => Err(WindowError::OpenWouldExceedWindow { limit, request }.into()),
            (false, _) => Err(WindowError::OpenWouldExceedBuffer { bytes_left, request }.into()),
        }
"""), ("""        let is_valid = n <= lim.saturating_sub(self.0);
        if is_valid {
            self.0 += n;
        }
        (ret, is_valid)
""", """        match self.0.checked_add(n) {
            Some(next) if next <= lim || n == 0 => {
                self.0 = next;
                (ret, true)
            }
            _ => (ret, false),
        }
"""))
r("b", "offset-enforce", "src/internal/offset.rs", ("""        match self.frames.peek() {
            None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
            Some(tgt) => match tgt.cmp(&cur) {
                std::cmp::Ordering::Equal => {
                    let _ = self.frames.pop();
                    Ok(())
                }
                std::cmp::Ordering::Greater => {
                    Err(ParseError::Window(WindowError::CloseWithResidue {
                        residual: tgt - cur,
                    }))
                }
                std::cmp::Ordering::Less => Err(ParseError::Window(WindowError::OffsetOverflow {
                    excess: cur - tgt,
                })),
            },
        }
""", """        let error = match self.frames.peek() {
            Some(tgt) if tgt == cur => {
                self.frames.pop();
                return Ok(());
            }
            Some(tgt) if tgt > cur => WindowError::CloseWithResidue { residual: tgt - cur },
            Some(tgt) => WindowError::OffsetOverflow { excess: cur - tgt },
            None => WindowError::CloseWithoutWindow,
        };
        Err(ParseError::Window(error))
"""))
r("a", "dynamic-write", "src/dynamic.rs", ("""        match S::try_from(l) {
            Ok(lp) => {
                buf.anticipate(l + <S as EncodeLength>::enc_len(&lp));
                crate::write_all_to!(lp, self.contents => buf)
            }
            Err(_) => unreachable!(),
        }
""", """        if let Ok(prefix) = S::try_from(l) {
            buf.anticipate(S::LEN + l);
            let head = prefix.write_to(buf);
            let body = self.contents.write_to(buf);
            buf.resolve();
            head + body
        } else {
            unreachable!()
        }
"""), ("""            let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
            let raw = Self::from_be_bytes(bytes);
            Ok(raw as usize)
""", """            Ok(bytes.iter().fold(0, |acc, &b| acc << 8 | b as usize))
"""))
r("b", "dynamic-parse", "src/dynamic.rs", ("""        let buflen = S::parse(p)?;
        p.set_fit(buflen.into())?;
        let contents = T::parse(p)?;
        p.enforce_target()?;
        Ok(Self::new(contents))
""", """        let len: usize = S::parse(p)?.into();
        p.set_fit(len)?;
        let ret = Self::from(T::parse(p)?);
        match p.enforce_target() {
            Ok(()) => Ok(ret),
            Err(e) => Err(e),
        }
"""), ("""        let bytes_left = p.remainder();
        if bytes_left < N {
            return Err(WindowError::OpenWouldExceedBuffer {
                bytes_left,
                request: N,
            }
            .into());
        }
        p.set_fit(bytes_left - N)?;
        let ret = T::parse(p)?;
        p.enforce_target()?;
        Ok(Self(ret))
""", """        let bytes_left = p.remainder();
        let winsize = bytes_left
            .checked_sub(N)
            .ok_or_else(|| WindowError::OpenWouldExceedBuffer { bytes_left, request: N })?;
        p.set_fit(winsize)?;
        let ret = T::parse(p).map(Self)?;
        p.enforce_target().map(|()| ret)
"""))
SW = "        self.0.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()\n"
r("a", "seq-write-loop", "src/seq/mod.rs", (SW, """        let mut total = 0;
        for item in &self.0 {
            total += item.write_to(buf);
        }
        buf.resolve();
        total
"""), ("""        let mut seq: Vec<T> = Vec::new();

        while p.remainder() != 0 {
            seq.push(T::parse(p)?);
        }

        Ok(Self(seq))
""", """        std::iter::from_fn(|| match p.remainder() {
            0 => None,
            _ => Some(T::parse(p)),
        })
        .collect()
"""))
r("b", "seq-write-fold", "src/seq/mod.rs", (SW, """        let n = self.0.iter().fold(0usize, |n, item| n + item.write_to(buf));
        n + buf.resolve_zero()
"""), ("        self.0.iter().map(Estimable::estimate).sum()\n", "        let mut n = 0;\n        for x in self.0.iter() {\n            n += x.estimate();\n        }\n        n\n"),
  ("""        let mut seq: Vec<T> = Vec::new();

        while p.remainder() != 0 {
            seq.push(T::parse(p)?);
        }

        Ok(Self(seq))
""", """        let mut seq = Self::new();
        loop {
            if p.remainder() == 0 {
                break Ok(seq);
            }
            seq.0.push(T::parse(p)?);
        }
"""))
r("a", "fixseq-parse-for", "src/seq/fix.rs", ("""        while p.remainder() != 0 && seq.len() < N {
            seq.try_push(T::parse(p)?)?;
        }

        if seq.len() == N {
            Ok(seq)
        } else {
            Err(crate::error::LengthError::WrongLength {
                exact: N,
                actual: seq.len(),
            }
            .into())
        }
""", """        for actual in 0..N {
            if p.remainder() == 0 {
                return Err(crate::error::LengthError::WrongLength { exact: N, actual }.into());
            }
            seq.try_push(T::parse(p)?)?;
        }
        Ok(seq)
"""))
r("a", "limseq-from-iter", "src/seq/lim.rs", ("""        let mut i = iter.into_iter();
        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
        if i.next().is_some() {
            panic!("attempted from_iter operation would overflow LimSeq capacity");
        }
        debug_assert!(ret.len() <= N);
        Self(ret)
""", """        let mut ret = Self::new();
        for item in iter {
            if ret.try_push(item).is_err() {
                panic!("attempted from_iter operation would overflow LimSeq capacity");
            }
        }
        ret
"""), ("""        let mut seq = Self::new();

        while p.remainder() != 0 {
            seq.try_push(T::parse(p)?)?;
        }

        Ok(seq)
""", """        let mut seq = Self::default();
        loop {
            match p.remainder() {
                0 => return Ok(seq),
                _ => {
                    let item = T::parse(p)?;
                    seq.try_push(item)?;
                }
            }
        }
"""))
r("b", "try-push-early-return", "src/seq/boundedseq_impl.rs", ("""        if self.len() < Self::LIMIT {
            unsafe {
                self.push_unchecked(value);
            }
            Ok(())
        } else {
            Err(LengthError::TooLong {
                limit: Self::LIMIT,
                actual: Self::LIMIT + 1,
            })
        }
""", """        let limit = Self::LIMIT;
        if self.len() >= limit {
            return Err(LengthError::TooLong {
                limit,
                actual: limit + 1,
            });
        }
        Ok(unsafe { self.push_unchecked(value) })
"""))
r("a", "padded-check", "src/schema.rs", ("        self.0.write_to(buf) + buf.push_many([0; N]) + buf.resolve_zero()\n", """        let mut n = self.0.write_to(buf);
        n += buf.push_all(&[0u8; N]);
        buf.resolve();
        n
"""), ("            if _padding != &[0u8; N] {\n", "            if _padding.iter().any(|&b| b != 0) {\n"),
  ("""        if p.remainder() != 0 {
            Ok(Self(Some(T::parse(p)?)))
        } else {
            Ok(Self(None))
        }
""", """        match p.remainder() {
            0 => Ok(Self::default()),
            _ => T::parse(p).map(|x| Self(Some(x))),
        }
"""), ("        match self.0 {\n            Some(ref x) => x.estimate(),\n            None => 0,\n        }\n", "        self.0.as_ref().map_or(0, Estimable::estimate)\n"))
r("a", "fixedbytes", "src/fixed.rs", ("""        if bytes.len() == N {
            let ptr = bytes.as_ptr() as *const [u8; N];
            unsafe { Ok(Self(*ptr)) }
        } else {
            Err(crate::error::WidthError::WrongWidth {
                exact: N,
                actual: bytes.len(),
            })
        }
""", """        let actual = bytes.len();
        if actual != N {
            return Err(crate::error::WidthError::WrongWidth { exact: N, actual });
        }
        let mut arr = [0u8; N];
        let mut i = 0;
        while i < N {
            arr[i] = bytes[i];
            i += 1;
        }
        Ok(Self(arr))
"""), ("        if let Ok(contents) = bytes.try_into() {\n            Ok(Self { contents })\n        } else {\n            Err(crate::error::WidthError::WrongWidth {\n                exact: N,\n                actual: bytes.len(),\n            })\n        }\n",
"""        match <[u8; N]>::try_from(bytes) {
            Ok(contents) => Ok(Self { contents }),
            Err(_) => Err(crate::error::WidthError::WrongWidth {
                exact: N,
                actual: bytes.len(),
            }),
        }
"""), ("        buf.push_many(self.0) + buf.resolve_zero()\n", "        let n = buf.push_all(&self.0);\n        buf.resolve();\n        n\n"))
r("a", "option-codec", "src/conv/mod.rs", ("""        (match self {
            Some(val) => buf.push_one(0xff) + val.write_to(buf),
            None => buf.push_one(0x00),
        }) + crate::resolve_zero!(buf)
""", """        let mut n = buf.push_one(if self.is_some() { 0xff } else { 0x00 });
        if let Some(val) = self {
            n += val.write_to(buf);
        }
        buf.resolve();
        n
"""), ("""        match p.take_tagword::<Option<T>, _, _>([0x00u8, 0xff])? {
            0xff => Ok(Some(T::parse(p)?)),
            0x00 => Ok(None),
            _ => unreachable!(),
        }
""", """        let tag = p.take_tagword::<Option<T>, _, _>([0x00u8, 0xff])?;
        if tag == 0 {
            return Ok(None);
        }
        T::parse(p).map(Some)
"""))
r("a", "splitvec", "src/internal/splitvec.rs", ("            self._cache + self.active.unwrap_or(0)\n", "            match self.active {\n                Some(n) => self._cache + n,\n                None => self._cache,\n            }\n"),
  ("            let frozen = self.active.take().unwrap_or(0);\n            self.stable.push(frozen);\n            self._cache += frozen;\n", "            self.active_mut();\n            self.flush();\n"),
  ("        let l_before = self.buffer.len();\n        self.buffer.extend(iter);\n        let l_after = self.buffer.len();\n        unsafe { self.increment(l_after - l_before) }\n", "        let mut n = 0;\n        for x in iter {\n            self.buffer.push(x);\n            n += 1;\n        }\n        unsafe { self.increment(n) }\n"),
  ("                let (ret, rest) = self.buf.split_at(len);\n                self.buf = rest;\n                Some(ret)\n", "                let ret = &self.buf[..len];\n                self.buf = &self.buf[len..];\n                Some(ret)\n"))
r("b", "splitvec-display", "src/internal/splitvec.rs", ("""        let buf: &[u8] = &self.buffer[..];
        write!(f, "[|")?;
        let mut ix: usize = 0;
        for l in self.spans.iter() {
            for &byte in &buf[ix..ix + l] {
                write!(f, "{byte:02x}")?;
            }
            write!(f, "|")?;
            ix += l;
        }
        write!(f, "]")
""", """        f.write_str("[|")?;
        for span in self.spans() {
            for byte in span {
                write!(f, "{:02x}", byte)?;
            }
            f.write_str("|")?;
        }
        f.write_str("]")
"""), ("            self.flush();\n            self.stable.append(&mut other.stable);\n            // Because `flush` performs `self.active.take()`, this call to `swap` leaves `other.active() == None`\n            std::mem::swap(&mut self.active, &mut other.active);\n            (&mut self._cache).add_assign(std::mem::take(&mut other._cache));\n",
"            self.flush();\n            self.stable.extend(other.stable.drain(..));\n            self.active = other.active.take();\n            self._cache += other._cache;\n            other._cache = 0;\n"))
r("a", "memobuilder-display", "src/builder/memo.rs", ("""            for &byte in &buf[ix..ix + l] {
                write!(f, "{byte:02x}")?
            }
            write!(f, "|")?;
            ix += l;
""", """            f.write_str(&crate::hexstring::util::hex_of_bytes(&buf[ix..][..*l]))?;
            f.write_str("|")?;
            ix += *l;
"""))
r("a", "encode-derive-sum", "encode_derive/src/lib.rs", ("                            #( self.#i.write_to(buf) + )* #resolve_zero_fn(buf)\n", "                            let mut _n = 0usize;\n                            #( _n += self.#i.write_to(buf); )*\n                            _n + #resolve_zero_fn(buf)\n"),
  ("                            #( self.#ident.write_to(buf) + )* #resolve_zero_fn(buf)\n", "                            let mut _n = 0usize;\n                            #( _n += <_ as #encode_trait>::write_to(&self.#ident, buf); )*\n                            _n + #resolve_zero_fn(buf)\n"))
r("a", "decode-derive-lets", "decode_derive/src/lib.rs", ("                            Ok(Self { #( #fname: <#ty as #decode_trait>::parse(p)? ),* })\n", "                            #( let #fname = <#ty as #decode_trait>::parse(p)?; )*\n                            Ok(Self { #( #fname ),* })\n"))
r("a", "estimable-derive-fold", "estimable_derive/src/lib.rs", ("                                #( self.#fname.unknown() )+*\n", "                                let mut _n = 0usize;\n                                #( _n += self.#fname.unknown(); )*\n                                _n\n"))
r("a", "cstyle-write", "src/adt.rs", ("""                let tag : $backer = match self {
                    $(
                        $name::$vname => $vdisc
                    ),+
                };

                tag.write_to(buf)
""", """                <$backer as $crate::conv::Encode>::write_to(&self.get_tagval(), buf)
"""))
r("b", "data-write", "src/adt.rs", ("                            $crate::write_all_to!($disc as $backer, inner => buf)\n", "                            let head = <$backer as $crate::Encode>::write_to(&($disc as $backer), buf);\n                            head + inner.write_to(buf) + $crate::Target::resolve_zero(buf)\n"))
r("a", "restrict-order", "src/error.rs", ("""        } else if val_ext >= min_ext {
            if val_ext <= max_ext {
                Ok(val)
            } else if min_ext > max_ext {
                Err(Self::InvalidBounds {
                    min: min_ext,
                    max: max_ext,
                })
            } else {
                Err(Self::Overflow {
                    max: max_ext,
                    val: val_ext,
                })
            }
        } else if min_ext > max_ext {
            Err(Self::InvalidBounds {
                min: min_ext,
                max: max_ext,
            })
        } else {
            Err(Self::Underflow {
                min: min_ext,
                val: val_ext,
            })
        }
""", """        }
        if val_ext >= min_ext && val_ext <= max_ext {
            return Ok(val);
        }
        if min_ext > max_ext {
            return Err(Self::InvalidBounds {
                min: min_ext,
                max: max_ext,
            });
        }
        if val_ext < min_ext {
            Err(Self::Underflow {
                min: min_ext,
                val: val_ext,
            })
        } else {
            Err(Self::Overflow {
                max: max_ext,
                val: val_ext,
            })
        }
"""))
r("a", "int-codec", "src/int.rs", ("                    buf.push_all(&self.to_be_bytes()) + buf.resolve_zero()\n", "                    let n = buf.push_many(self.to_be_bytes());\n                    buf.resolve();\n                    n\n"),
  ("""                    let numeric: i128 = val.try_into()?;
                    let (min, max) = (i128::from(MIN), i128::from(MAX));
                    if min > max {
                        Err(BoundsError::InvalidBounds { min, max })
                    } else if numeric < min {
                        Err(BoundsError::Underflow { min, val: numeric })
                    } else if numeric > max {
                        Err(BoundsError::Overflow { max, val: numeric })
                    } else {
                        Ok(unsafe { Self::from_numeric_unchecked(val) })
                    }
""", """                    let numeric: i128 = val.try_into()?;
                    let (min, max) = (MIN as i128, MAX as i128);
                    if (min..=max).contains(&numeric) {
                        return Ok(unsafe { Self::from_numeric_unchecked(val) });
                    }
                    Err(if min > max {
                        BoundsError::InvalidBounds { min, max }
                    } else if numeric > max {
                        BoundsError::Overflow { max, val: numeric }
                    } else {
                        BoundsError::Underflow { min, val: numeric }
                    })
"""))
r("a", "float-range", "src/float.rs", ("            val >= Self::MIN_F64 && val <= Self::MAX_F64,\n", "            (Self::MIN_F64..=Self::MAX_F64).contains(&val),\n"))
r("a", "buffer-get", "src/parse/buffer.rs", ("        assert!(ix < self.len());\n        unsafe { self.get_byte_unchecked(ix) }\n", "        self.0[ix]\n"),
  ("        self.0.get_unchecked(ix..ix + len)\n", "        self.0.get_unchecked(ix..).get_unchecked(..len)\n"),
  ("        if let [first, tail @ ..] = self.0 {\n            Some((*first, Self(tail)))\n        } else {\n            None\n        }\n", "        match self.0.split_first() {\n            Some((first, tail)) => Some((*first, Self(tail))),\n            None => None,\n        }\n"))

r("c", "n-fold", "src/zarith.rs", ("""            let lo7: Vec<u8> = bytes.into_iter().map(|b| b & 0x7f).collect();
            match BigUint::from_radix_le(&lo7, 0x80) {
                Some(nat) => Self(nat),
                None => panic!("from_bytes: conversion failed!"),
            }
""", """            let groups: Vec<u8> = bytes.into_iter().collect();
            let nat = groups
                .iter()
                .rev()
                .fold(BigUint::from(0u8), |acc, &b| (acc << 7u8) + BigUint::from(b & 0x7f));
            Self(nat)
"""))
r("c", "z-bits", "src/zarith.rs", ("""            match n {
                0..=6 => 1,
                n => 1 + Integer::div_ceil(&(n - 6), &7),
            }
""", """            if n <= 6 {
                return 1;
            }
            let rest = n - 6;
            1 + rest / 7 + usize::from(rest % 7 != 0)
"""), ("            let n: usize = self.0.bits() as usize;\n            // zero is encoded in one byte\n            Integer::div_ceil(&n, &7).max(1)\n", "            match self.0.bits() as usize {\n                0 => 1,\n                n => (n + 6) / 7,\n            }\n"),
  ("    use ::num_integer::Integer;\n", ""))
r("c", "kv-loop", "src/parse/mod.rs", ("""        while self.remainder() > 0 {
            let _k = self.consume_arr::<M>()?;
            if *k == _k {
                let _v = self.consume_arr::<N>()?;
                return Ok(Some(f(_v)));
            } else {
                let _ = self.skip_exactly(N)?;
                continue;
            }
        }
        Ok(None)
""", """        loop {
            if self.remainder() == 0 {
                return Ok(None);
            }
            let candidate: [u8; M] = self.consume_arr()?;
            if candidate.iter().zip(k.iter()).all(|(x, y)| x == y) {
                break;
            }
            self.skip_exactly(N)?;
        }
        self.consume_arr::<N>().map(|v| Some(f(v)))
"""))
r("c", "tagword-early", "src/parse/mod.rs", ("""        if v.is_valid(actual) {
            Ok(actual)
        } else if v.has_valid() {
            Err(U::promote(TagError::new(
                actual,
                std::any::type_name::<T>(),
                Some(v.into_valid()),
            )))
        } else {
            Err(ParseError::Internal(InternalError::NoValidTags))
        }
""", """        if v.is_valid(actual) {
            return Ok(actual);
        }
        if !v.has_valid() {
            return Err(InternalError::NoValidTags.into());
        }
        let legal = v.into_valid();
        Err(TagError::new(actual, std::any::type_name::<T>(), Some(legal)).into())
"""))
r("c", "bool-if", "src/parse/mod.rs", ("""        match self.consume_byte()? {
            0xff => Ok(true),
            0x00 => Ok(false),
            byte => Err(ParseError::Token(TokenError::InvalidBoolean(byte))),
        }
""", """        let byte = self.take_u8()?;
        if byte == 0 || byte == 0xff {
            Ok(byte != 0)
        } else {
            Err(TokenError::InvalidBoolean(byte).into())
        }
"""))
r("c", "self-terminating-from-fn", "src/parse/mod.rs", ("""        let mut ret: Vec<u8> = Vec::with_capacity(self.remainder());
        loop {
            match self.consume_byte() {
                Ok(byte) => {
                    ret.push(byte);
                    if is_terminal(byte) {
                        break Ok(ret);
                    }
                }
                Err(_) => {
                    break Err(ParseError::from(TokenError::NonTerminating(ret)));
                }
            }
        }
""", """        let mut ret: Vec<u8> = Vec::new();
        while let Ok(byte) = self.consume_byte() {
            ret.push(byte);
            if is_terminal(byte) {
                return Ok(ret);
            }
        }
        Err(TokenError::NonTerminating(ret).into())
"""))
r("c", "leftover-append", "src/parse/mod.rs", ("""                LeftoverState::Empty => {
                    *self = Self::Windowless(std::mem::take(other));
                }
                LeftoverState::Windowless(buf) => buf.append(other),
""", """                LeftoverState::Empty => {
                    let mut fresh = Vec::with_capacity(other.len());
                    fresh.append(other);
                    *self = Self::Windowless(fresh);
                }
                LeftoverState::Windowless(buf) => buf.extend(other.drain(..)),
"""))
r("c", "option-unknown", "src/conv/len.rs", ("""        match self {
            &None => 1,
            Some(x) => 1 + x.estimate(),
        }
""", """        1 + self.as_ref().map_or(0, Estimable::estimate)
"""))
r("c", "vec-target", "src/conv/target.rs", ("""        self.push(b);
        1
    }

    #[inline]
    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        self.extend(&arr);
        N
    }
""", """        self.push_many([b])
    }

    #[inline]
    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        let before = self.len();
        self.extend_from_slice(&arr);
        self.len() - before
    }
"""))
r("c", "stack", "src/internal/stack.rs", ("""        match validate(self.peek(), item) {
            None => unsafe {
                self.push_unchecked(item);
                Ok(())
            },
            Some(err) => Err(err),
        }
""", """        if let Some(err) = validate(self.peek(), item) {
            return Err(err);
        }
        // SAFETY: validated just above
        unsafe { self.push_unchecked(item) };
        Ok(())
"""))
r("c", "offset-test-target", "src/internal/offset.rs", ("""        if let Some(tgt) = self.frames.peek() {
            match tgt.cmp(&cur) {
                std::cmp::Ordering::Equal => Ok(true),
                std::cmp::Ordering::Greater => Ok(false),
                std::cmp::Ordering::Less => Err(ParseError::Window(WindowError::OffsetOverflow {
                    excess: cur - tgt,
                })),
            }
        } else {
            Ok(false)
        }
""", """        match self.frames.peek() {
            Some(tgt) if cur > tgt => Err(WindowError::OffsetOverflow { excess: cur - tgt }.into()),
            Some(tgt) => Ok(cur == tgt),
            None => Ok(false),
        }
"""))
r("c", "cstyle-decode", "src/adt.rs", ("""                match p.take_tagword::<$name, $backer, _>([ $( $vdisc ),* ])? {
                    $(
                        $vdisc => Ok($name::$vname),
                    )+
                    _ => unreachable!(),
                }
""", """                let tag = p.take_tagword::<$name, $backer, _>([ $( $vdisc ),* ])?;
                <Self as std::convert::TryFrom<$backer>>::try_from(tag).map_err(|e| e.into())
"""))
r("c", "data-estimate", "src/adt.rs", ("""                match self {
                    $(
                        $name::$vname(inner) =>
                            <$backer as $crate::FixedLength>::LEN + <$payload::$vname as $crate::Estimable>::estimate(inner)
                    ),+
                }
""", """                let payload = match self {
                    $( $name::$vname(inner) => $crate::Estimable::estimate(inner), )+
                };
                payload + <$backer as $crate::FixedLength>::LEN
"""))
r("c", "length-prefix", "src/dynamic.rs", ("""        match S::try_from(actual) {
            Ok(x) => Ok(x),
            Err(_err) => {
                let limit: usize = S::max_len();
                debug_assert!(
                    actual > limit,
                    "unexpected Err in {}::try_from({actual})",
                    <S as LenPref>::suffix(),
                );
                Err(crate::error::WidthError::TooWide { limit, actual })
            }
        }
""", """        S::try_from(actual).map_err(|_| crate::error::WidthError::TooWide {
            limit: S::max_len(),
            actual,
        })
"""), ("""        let buflen = S::parse(p)?;
        p.set_fit(buflen.into())?;
        let contents = T::parse(p)?;
        p.enforce_target()?;
        Ok(Self::new(contents))
""", """        let width: usize = S::parse(p).map(Into::into)?;
        p.set_fit(width)?;
        T::parse(p).and_then(|contents| {
            p.enforce_target()?;
            Ok(contents.into())
        })
"""))
r("c", "padded", "src/schema.rs", ("        self.0.write_to(buf) + buf.push_many([0; N]) + buf.resolve_zero()\n", "        let body = self.0.write_to(buf);\n        let tail = (0..N).map(|_| buf.push_one(0)).sum::<usize>();\n        buf.resolve();\n        body + tail\n"),
  ("            if _padding != &[0u8; N] {\n", "            if _padding.iter().any(|&b| b != 0) {\n"),
  ("        if p.remainder() != 0 {\n            Ok(Self(Some(T::parse(p)?)))\n        } else {\n            Ok(Self(None))\n        }\n", "        let inner = match p.remainder() {\n            0 => None,\n            _ => Some(T::parse(p)?),\n        };\n        Ok(inner.into())\n"))
r("c", "limseq", "src/seq/lim.rs", ("""        let mut seq = Self::new();

        while p.remainder() != 0 {
            seq.try_push(T::parse(p)?)?;
        }

        Ok(seq)
""", """        let mut items = Vec::new();
        while p.remainder() != 0 {
            let item = T::parse(p)?;
            if items.len() == N {
                return Err(LengthError::TooLong { limit: N, actual: N + 1 }.into());
            }
            items.push(item);
        }
        Ok(Self::from_vec(items))
"""), ("""        let items: Vec<T> = i.by_ref().take(rem).collect();
        if i.next().is_some() {
            panic!("attempted extend operation would overflow LimSeq capacity");
        }
        self.0.extend(items);
""", """        let mut items: Vec<T> = Vec::with_capacity(rem.min(64));
        while let Some(x) = i.next() {
            assert!(items.len() < rem, "attempted extend operation would overflow LimSeq capacity");
            items.push(x);
        }
        for x in items {
            self.0.push(x);
        }
"""))
r("c", "int-to-i32", "src/int.rs", ("""            Ok(x) => {
                if MIN <= 0 {
                    x.into() as i32
                } else {
                    x.into() as i32 + MIN
                }
            }
""", """            Ok(x) => x.into() as i32 + std::cmp::max(MIN, 0),
"""), ("""        let underlying: i64 = if MIN <= 0 {
            i64::from(x)
        } else {
            i64::from(x) - i64::from(MIN)
        };
""", """        let underlying = i64::from(x) - i64::from(MIN.max(0));
"""))
r("c", "strict", "src/builder/strict.rs", ("        self.0.write(buf)\n", "        self.0.extend_from_slice(buf);\n        Ok(buf.len())\n"), ("        vec![b].into()\n", "        Self::words([b])\n"))
r("c", "memo", "src/builder/memo.rs", ("        let l = buf.len();\n        self.segs.extend_current_from_slice(buf);\n        l\n", "        let before = self.segs.len();\n        self.segs.extend_current(buf.iter().copied());\n        self.segs.len() - before\n"))
r("c", "autobox", "src/autobox.rs", ("""        match T::parse(p) {
            Ok(t) => Ok(AutoBox::new(t)),
            Err(e) => Err(e),
        }
""", "        T::parse(p).map(AutoBox::new)\n"))
r("c", "splitvec-spans", "src/internal/splitvec.rs", ("""                let (ret, rest) = self.buf.split_at(len);
                self.buf = rest;
                Some(ret)
            }
        }
    }
}

impl<'a: 'b""", """                let ret = &self.buf[..len];
                self.buf = &self.buf[len..];
                Some(ret)
            }
        }
    }
}

impl<'a: 'b"""), ("""            self.stable.append(&mut other.stable);
""", """            self.stable.extend(other.stable.drain(..));
"""), ("""            matches!((self.stable.len(), self.active), (0, _) | (1, None))
""", """            self.count_spans() <= 1
"""))
r("c", "float-restrict", "src/error.rs", ("""        if min <= max {
            let val: f64 = val.into();
            if val >= min {
                if val <= max {
                    Ok(val)
                } else {
                    Err(Self::Overflow { max, val })
                }
            } else {
                Err(Self::Underflow { min, val })
            }
        } else {
            Err(Self::InvalidBounds { min, max })
        }
""", """        if !(min <= max) {
            return Err(Self::InvalidBounds { min, max });
        }
        let val = f64::from(val);
        if (min..=max).contains(&val) {
            Ok(val)
        } else if val > max {
            Err(Self::Overflow { max, val })
        } else {
            Err(Self::Underflow { min, val })
        }
"""))

r("d", "n-serialize-shift", "src/zarith.rs", ("            let mut ret = self.0.to_radix_le(0x80);\n\n" + TOGGLE_N, """            let mut rest = self.0.clone();
            let mut ret: Vec<u8> = Vec::new();
            loop {
                let low = rest.iter_u32_digits().next().unwrap_or(0) as u8 & 0x7f;
                rest >>= 7u32;
                if rest.bits() == 0 {
                    ret.push(low);
                    break ret;
                }
                ret.push(low | 0x80);
            }
"""))
r("d", "hex-of-bytes-collect", "src/hexstring.rs", ("""        let mut hex: String = String::with_capacity(bytes.len() * 2);
        for &byte in bytes {
            match write!(&mut hex, "{byte:02x}") {
                Ok(_) => (),
                Err(_) => unreachable!("write to String should never fail"),
            };
        }
        hex
""", """        bytes
            .iter()
            .flat_map(|b| [b >> 4, b & 0xf])
            .map(|d| char::from_digit(u32::from(d), 16).unwrap())
            .collect()
"""), ("    use std::fmt::Write;\n", ""), ("""        if bytes_len * 2 != ascii_len {
            return false;
        }

        for (pair, &byte) in src.as_bytes().chunks_exact(2).zip(tgt) {
            if byte_of_hex(pair[0], pair[1]) != Some(byte) {
                return false;
            }
        }
        true
""", "        bytes_len * 2 == ascii_len && hex_of_bytes(tgt).eq_ignore_ascii_case(src)\n"),
 ("""        for pair in src.as_bytes().chunks_exact(2) {
            match byte_of_hex(pair[0], pair[1]) {
                Some(word) => dst.push(word),
                None => return Err(HexConvError::NonHex(src.to_string())),
            }
        }
        Ok(dst)
""", """        if !src.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Err(HexConvError::NonHex(src.to_owned()));
        }
        dst.extend((0..ascii_len).step_by(2).map(|i| u8::from_str_radix(&src[i..i + 2], 16).unwrap()));
        Ok(dst)
"""), ("    fn byte_of_hex(hi", "    #[allow(dead_code)]\n    fn byte_of_hex(hi"))
r("d", "take-numbers", "src/parse/mod.rs", ("        self.consume_arr::<2>().map(u16::from_be_bytes)\n", "        self.consume_arr::<2>().map(|[a, b]| u16::from(a) * 256 + u16::from(b))\n"),
 ("        self.consume_arr::<4>().map(u32::from_be_bytes)\n", "        let s = self.consume(4)?;\n        Ok(s.iter().fold(0, |n, &b| (n << 8) | u32::from(b)))\n"),
 ("        self.consume_arr::<8>().map(f64::from_be_bytes)\n", "        self.take_u64().map(f64::from_bits)\n"),
 ("        self.consume_arr::<8>().map(i64::from_be_bytes)\n", "        let mut a = self.consume_arr::<8>()?;\n        a.reverse();\n        Ok(i64::from_le_bytes(a))\n"),
 ("        self.consume(nbytes).map(Vec::from)\n", "        let mut v = Vec::new();\n        v.extend(self.consume(nbytes)?.iter().copied());\n        Ok(v)\n"))
r("d", "take-bool", "src/parse/mod.rs", ("""        match self.consume_byte()? {
            0xff => Ok(true),
            0x00 => Ok(false),
            byte => Err(ParseError::Token(TokenError::InvalidBoolean(byte))),
        }
""", """        let byte = self.consume_byte()?;
        [0x00, 0xff]
            .iter()
            .position(|&b| b == byte)
            .map(|i| i == 1)
            .ok_or(ParseError::Token(TokenError::InvalidBoolean(byte)))
"""))
r("d", "kv-slices", "src/parse/mod.rs", ("""            let _k = self.consume_arr::<M>()?;
            if *k == _k {
""", """            let hit = self.consume(M)?.iter().eq(k.iter());
            if hit {
"""))
r("d", "self-terminating-fold", "src/parse/mod.rs", ("""        let mut ret: Vec<u8> = Vec::with_capacity(self.remainder());
        loop {
            match self.consume_byte() {
                Ok(byte) => {
                    ret.push(byte);
                    if is_terminal(byte) {
                        break Ok(ret);
                    }
                }
                Err(_) => {
                    break Err(ParseError::from(TokenError::NonTerminating(ret)));
                }
            }
        }
""", """        let mut ret: Vec<u8> = Vec::new();
        while !ret.last().map_or(false, |&b| is_terminal(b)) {
            if self.remainder() == 0 {
                return Err(ParseError::from(TokenError::NonTerminating(ret)));
            }
            ret.push(self.consume_byte()?);
        }
        Ok(ret)
"""))
r("d", "leftover-take", "src/parse/mod.rs", ("""            match self {
                LeftoverState::Empty => {
                    *self = Self::Windowless(std::mem::take(other));
                }
                LeftoverState::Windowless(buf) => buf.append(other),
                LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
            }
""", """            *self = match std::mem::take(self) {
                LeftoverState::Empty => Self::Windowless(other.drain(..).collect()),
                LeftoverState::Windowless(mut buf) => {
                    buf.extend(other.drain(..));
                    Self::Windowless(buf)
                }
                LeftoverState::Windowed(mut sbuf) => {
                    sbuf.append_current(other);
                    Self::Windowed(sbuf)
                }
            }
"""))
r("d", "offset-wide", "src/internal/offset.rs", ("        let is_valid = n <= lim.saturating_sub(self.0);\n        if is_valid {\n            self.0 += n;\n        }\n        (ret, is_valid)\n",
 "        let end = ret as u128 + n as u128;\n        if end > lim as u128 {\n            return (ret, false);\n        }\n        self.0 = end as usize;\n        (ret, true)\n"),
 ("""            match tgt.cmp(&cur) {
                std::cmp::Ordering::Equal => Ok(true),
                std::cmp::Ordering::Greater => Ok(false),
                std::cmp::Ordering::Less => Err(ParseError::Window(WindowError::OffsetOverflow {
                    excess: cur - tgt,
                })),
            }
""", """            match cur.checked_sub(tgt) {
                None => Ok(false),
                Some(0) => Ok(true),
                Some(excess) => Err(WindowError::OffsetOverflow { excess }.into()),
            }
"""), ("""        if winsize > bytes_left {
            let request = winsize;
            Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                bytes_left,
                request,
            }))
        } else if winsize > self.rem() {
""", """        let request = winsize;
        if let None = bytes_left.checked_sub(request) {
            return Err(WindowError::OpenWouldExceedBuffer { bytes_left, request }.into());
        }
        let room = self.rem();
        if !(0..=room).contains(&winsize) {
"""))
r("d", "padded-loops", "src/schema.rs", ("        self.0.write_to(buf) + buf.push_many([0; N]) + buf.resolve_zero()\n", "        let n = self.0.write_to(buf);\n        let n = n + (0..N).map(|_| buf.push_one(0)).sum::<usize>();\n        buf.resolve();\n        n\n"))
r("d", "vec-target-loops", "src/conv/target.rs", ("        self.reserve(extra)\n", "        let _ = extra;\n"), ("        self.extend(&arr);\n        N\n", "        arr.iter().for_each(|&b| self.push(b));\n        arr.len()\n"),
 ("        self.extend_from_slice(buf);\n        buf.len()\n", "        let at = self.len();\n        self.resize(at + buf.len(), 0);\n        self[at..].copy_from_slice(buf);\n        self.len() - at\n"))
r("d", "fix-parse-collect", "src/seq/fix.rs", ("""        let mut seq = Self::new();

        while p.remainder() != 0 && seq.len() < N {
            seq.try_push(T::parse(p)?)?;
        }

        if seq.len() == N {
            Ok(seq)
        } else {
            Err(crate::error::LengthError::WrongLength {
                exact: N,
                actual: seq.len(),
            }
            .into())
        }
""", """        let items = (0..N)
            .map_while(|_| if p.remainder() == 0 { None } else { Some(T::parse(p)) })
            .collect::<ParseResult<Vec<T>>>()?;
        let actual = items.len();
        if actual != N {
            return Err(crate::error::LengthError::WrongLength { exact: N, actual }.into());
        }
        Ok(Self(inner::internalize::<T, N>(items)))
"""))
r("d", "lim-parse-collect", "src/seq/lim.rs", ("""        let mut seq = Self::new();

        while p.remainder() != 0 {
            seq.try_push(T::parse(p)?)?;
        }

        Ok(seq)
""", """        let mut seq = Self::new();
        loop {
            if p.remainder() == 0 {
                break Ok(seq);
            }
            let item = T::parse(p)?;
            if let Err(e) = seq.try_push(item) {
                break Err(e.into());
            }
        }
"""), ("        self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()\n", "        let mut written = 0usize;\n        for i in 0..self.len() {\n            written += self[i].write_to(buf);\n        }\n        buf.resolve();\n        written\n"))
r("d", "dynamic-len", "src/dynamic.rs", ("""        let l: usize = self.contents.enc_len();
        assert!(
            l <= S::max_len(),
            "payload length {} unrepresentable as {}",
            l,
            S::suffix(),
        );
        match S::try_from(l) {
            Ok(lp) => {
                buf.anticipate(l + <S as EncodeLength>::enc_len(&lp));
                crate::write_all_to!(lp, self.contents => buf)
            }
            Err(_) => unreachable!(),
        }
""", """        let l: usize = self.contents.enc_len();
        let lp = match S::try_from(l) {
            Ok(lp) if l <= S::max_len() => lp,
            _ => panic!("payload length {} unrepresentable as {}", l, S::suffix()),
        };
        let n = lp.write_to(buf);
        let m = self.contents.write_to(buf);
        buf.resolve();
        n + m
"""), ("""            let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
            let raw = Self::from_be_bytes(bytes);
            Ok(raw as usize)
""", """            Ok(bytes.iter().fold(0usize, |n, &b| n * 256 + usize::from(b)))
"""))
r("d", "string-checked", "src/conv/mod.rs", ("        Ok(String::from_utf8_lossy(&buf).into_owned())\n", "        Ok(match String::from_utf8(buf) {\n            Ok(s) => s,\n            Err(e) => String::from_utf8_lossy(e.as_bytes()).to_string(),\n        })\n"))
r("d", "stack-vec-index", "src/builder/memo.rs", ("""        let mut ix: usize = 0;
        for l in self.lens.iter() {
            for &byte in &buf[ix..ix + l] {
                write!(f, "{byte:02x}")?
            }
            write!(f, "|")?;
            ix += l;
        }
        write!(f, "]")
""", """        let mut rest = buf;
        self.lens.iter().try_for_each(|&l| {
            let (seg, tail) = rest.split_at(l);
            rest = tail;
            seg.iter().try_for_each(|b| f.write_fmt(format_args!("{:02x}", b)))?;
            f.write_str("|")
        })?;
        f.write_str("]")
"""))
r("d", "data-tags-contains", "src/adt.rs", ("""                    $(| $disc )* => true,
                    _ => false,
                }
            }

            pub const fn get_name(val: $backer) -> Option<&'static str> {
                match val {
                    $( $disc => Some(stringify!($vname)), )+
                    _ => None,
                }
            }
        }

        impl std::hash::Hash""", """                    $( $disc => true, )*
                    _ => false,
                }
            }

            pub const fn get_name(val: $backer) -> Option<&'static str> {
                $( if val == $disc { return Some(stringify!($vname)); } )+
                None
            }
        }

        impl std::hash::Hash"""), ("""                match p.take_tagword::<$name, $backer, _>([ $( $disc as $backer ),+ ])? {
                    $(
                        $disc => {
                            Ok($name::$vname(<$payload::$vname>::parse(p)?))
                        }
                    )+
                    _ => unreachable!(),
                }
""", """                let tag = p.take_tagword::<$name, $backer, _>([ $( $disc as $backer ),+ ])?;
                $(
                    if tag == $disc {
                        return <$payload::$vname>::parse(p).map($name::$vname);
                    }
                )+
                unreachable!()
"""))

if __name__ == "__main__":
    args, only, one = [], None, None
    it = iter(sys.argv[1:])
    for a in it:
        if a == "--only":
            only = next(it).split(",")
        elif a == "--one":
            one = next(it)
        else:
            args.append(a)
    W, groups = args[0], args[1:] or sorted(G)
    os.makedirs(W, exist_ok=True)
    R, V = W + "/repo", W + "/verif"
    E = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true", VERIF_SEED="1", VERIF_TIER="quick")
    def sh(cmd, cwd="/"):
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=E)
    if not os.path.exists(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    bad = 0
    for g in groups:
        sh("git fetch -q; git reset -q --hard origin/HEAD; git clean -qfd", R)
        keep = "--exclude .build" if os.path.exists(V + "/.build") else ""
        sh("rsync -a --delete --exclude .git --exclude evidence --exclude seeded %s %s/ %s/" % (keep, ROOT, V))
        for name, f, pairs in G[g]:
            if one and name != one:
                continue
            s = open(os.path.join(R, f)).read()
            for old, new in pairs:
                if old not in s:
                    sys.exit("%s/%s: text not found in %s:\n%s" % (g, name, f, old))
                s = s.replace(old, new)
            open(os.path.join(R, f), "w").write(s)
            print("applied", g, name, flush=True)
        c = sh("cargo check --workspace --offline 2>&1 | grep -A9 -E '^error' | head -60", R)
        if c.stdout.strip():
            sys.exit(c.stdout)
        t = sh("cargo test --workspace --no-fail-fast --offline", R)
        print(g, "tests", t.returncode, flush=True)
        if t.returncode:
            print(t.stdout[-3000:])
        for q in (only or ["P%02d" % i for i in range(1, 100)]):
            if not os.path.exists(V + "/harness/src/" + q.lower() + ".rs"):
                continue
            c = sh("unshare -Urm bash -c 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && timeout 900 python3 checks/run.py %s --tier quick'" % (R, V, q))
            print(g, q, c.returncode, flush=True)
            if c.returncode:
                bad = 1
                print(c.stdout[-1500:], flush=True)
    sys.exit(bad)
