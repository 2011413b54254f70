//! Plain MSB-first bit reader and writer of the reference codec.

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Short,
    Bad(&'static str),
}

pub struct W {
    pub out: Vec<u8>,
    n: usize,
}

impl W {
    pub fn new() -> Self {
        W { out: vec![], n: 0 }
    }
    pub fn put(&mut self, v: u64, bits: usize) -> &mut Self {
        assert!(bits == 64 || v >> bits == 0, "reference value {v} does not fit {bits} bits");
        for i in (0..bits).rev() {
            if self.n % 8 == 0 {
                self.out.push(0);
            }
            let bit = (v >> i & 1) as u8;
            *self.out.last_mut().unwrap() |= bit << (7 - self.n % 8);
            self.n += 1;
        }
        self
    }
    pub fn flag(&mut self, b: bool) -> &mut Self {
        self.put(b as u64, 1)
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.put(v as u64, 8)
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for x in b {
            self.u8(*x);
        }
        self
    }
    pub fn aligned(&self) -> bool {
        self.n % 8 == 0
    }
}

pub struct R<'a> {
    b: &'a [u8],
    pub pos: usize,
}

impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        R { b, pos: 0 }
    }
    pub fn get(&mut self, bits: usize) -> Result<u64, E> {
        if self.pos + bits > self.b.len() * 8 {
            return Err(E::Short);
        }
        let mut v = 0u64;
        for _ in 0..bits {
            v = v << 1 | (self.b[self.pos / 8] >> (7 - self.pos % 8) & 1) as u64;
            self.pos += 1;
        }
        Ok(v)
    }
    pub fn flag(&mut self) -> Result<bool, E> {
        Ok(self.get(1)? == 1)
    }
    pub fn u8(&mut self) -> Result<u8, E> {
        Ok(self.get(8)? as u8)
    }
    pub fn take(&mut self, n: usize) -> Result<Vec<u8>, E> {
        assert!(self.pos % 8 == 0);
        let at = self.pos / 8;
        if self.b.len() - at < n {
            return Err(E::Short);
        }
        self.pos += n * 8;
        Ok(self.b[at..at + n].to_vec())
    }
    pub fn arr<const N: usize>(&mut self) -> Result<[u8; N], E> {
        Ok(self.take(N)?.try_into().unwrap())
    }
    pub fn end(&self) -> bool {
        self.pos >= self.b.len() * 8
    }
    /// Bytes consumed, rounding up.
    pub fn used(&self) -> usize {
        (self.pos + 7) / 8
    }
}
