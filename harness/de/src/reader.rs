//! Reads printed expressions back, independently of the printer.
/// Tree as printed: operators by token, leaves by text.
#[derive(Debug, PartialEq, Clone)]
pub enum Pt {
    Leaf(String),
    Op(String, Vec<Pt>),
}

pub struct P<'a> {
    s: &'a str,
    pub pos: usize,
    infix: Vec<String>,
    funcs: Vec<String>,
}
impl<'a> P<'a> {
    pub fn new(s: &'a str, infix: Vec<String>, funcs: Vec<String>) -> Self {
        P { s, pos: 0, infix, funcs }
    }
    pub fn rest(&self) -> &'a str {
        &self.s[self.pos..]
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.pos += t.len();
            true
        } else {
            false
        }
    }
    /// an expression without its outermost parentheses
    pub fn bare(&mut self) -> Result<Pt, String> {
        let first = self.operand()?;
        let infix = self.infix.clone();
        for tok in &infix {
            let sep = format!(" {tok} ");
            if self.rest().starts_with(&sep) {
                let mut ch = vec![first.clone()];
                while self.eat(&sep) {
                    ch.push(self.operand()?);
                }
                return Ok(Pt::Op(tok.clone(), ch));
            }
        }
        Ok(first)
    }
    fn operand(&mut self) -> Result<Pt, String> {
        let save = self.pos;
        let mut fs: Vec<String> = self.funcs.clone();
        fs.sort_by_key(|f| std::cmp::Reverse(f.len()));
        for f in fs {
            if self.eat(&format!("{f}(")) {
                let mut ch = vec![self.bare()?];
                while self.eat(", ") {
                    ch.push(self.bare()?);
                }
                if !self.eat(")") {
                    return Err(format!("expected ) at {:?}", self.rest()));
                }
                return Ok(Pt::Op(f, ch));
            }
        }
        if self.eat("(") {
            let e = self.bare()?;
            if !self.eat(")") {
                return Err(format!("expected ) at {:?}", self.rest()));
            }
            return Ok(e);
        }
        let r = self.rest();
        let end = r.find([' ', ',', '(', ')']).unwrap_or(r.len());
        if end == 0 {
            return Err(format!("expected a leaf at {:?} (from {save})", r));
        }
        self.pos += end;
        Ok(Pt::Leaf(r[..end].to_string()))
    }
}

