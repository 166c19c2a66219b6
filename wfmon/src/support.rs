// A parameter type of the application's own, with its own error type.
// Compiled into the monitor (to know what to expect) and into the
// applications it generates (to be used).

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok(pub String);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TokErr {
    Empty,
    Start(char),
    Odd { at: usize },
}

impl std::str::FromStr for Tok {
    type Err = TokErr;
    fn from_str(s: &str) -> Result<Tok, TokErr> {
        match s.chars().next() {
            None => return Err(TokErr::Empty),
            Some('t') => {}
            Some(c) => return Err(TokErr::Start(c)),
        }
        for (at, c) in s.char_indices() {
            if !c.is_ascii_lowercase() && !c.is_ascii_digit() {
                return Err(TokErr::Odd { at });
            }
        }
        Ok(Tok(s[1..].to_string()))
    }
}

impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "t{}", self.0)
    }
}
