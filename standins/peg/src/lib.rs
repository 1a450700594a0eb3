//! Stand-in for the part of rust-peg 0.8 that the redscript grammar uses.
pub use peg_macros::parser;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RuleResult<T> {
    Matched(usize, T),
    Failed,
}

pub trait ParseLiteral {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()>;
}

impl ParseLiteral for ::std::primitive::str {
    fn parse_string_literal(&self, pos: usize, literal: &::std::primitive::str) -> RuleResult<()> {
        if self.as_bytes()[pos..].starts_with(literal.as_bytes()) {
            RuleResult::Matched(pos + literal.len(), ())
        } else {
            RuleResult::Failed
        }
    }
}

pub mod str {
    use std::fmt;

    #[derive(PartialEq, Eq, Debug, Clone, Copy)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }

    impl fmt::Display for LineCol {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}:{}", self.line, self.column)
        }
    }

    pub fn line_col(input: &::std::primitive::str, offset: usize) -> LineCol {
        let before = &input[..offset];
        let line = before.bytes().filter(|&b| b == b'\n').count() + 1;
        let column = before.chars().rev().take_while(|&c| c != '\n').count() + 1;
        LineCol { line, column, offset }
    }
}

pub mod error {
    use std::collections::HashSet;
    use std::fmt;

    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct ExpectedSet {
        expected: HashSet<&'static str>,
    }

    impl ExpectedSet {
        pub fn tokens(&self) -> impl Iterator<Item = &'static str> + '_ {
            self.expected.iter().copied()
        }
    }

    impl fmt::Display for ExpectedSet {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.expected.is_empty() {
                return write!(f, "<unreported>");
            }
            if self.expected.len() == 1 {
                return write!(f, "{}", self.expected.iter().next().unwrap());
            }
            let mut errors = self.tokens().collect::<Vec<_>>();
            errors.sort_unstable();
            write!(f, "one of {}", errors.join(", "))
        }
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }

    impl<L: fmt::Display> fmt::Display for ParseError<L> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "error at {}: expected {}", self.location, self.expected)
        }
    }

    impl<L: fmt::Display + fmt::Debug> std::error::Error for ParseError<L> {}

    #[doc(hidden)]
    pub struct ErrorState {
        pub max_pos: usize,
        pub quiet: usize,
        pub collecting: bool,
        pub expected: HashSet<&'static str>,
    }

    impl ErrorState {
        pub fn new() -> Self {
            Self { max_pos: 0, quiet: 0, collecting: false, expected: HashSet::new() }
        }

        #[inline]
        pub fn fail<T>(&mut self, pos: usize, what: &'static str) -> crate::RuleResult<T> {
            if self.quiet == 0 {
                if self.collecting {
                    if pos == self.max_pos {
                        self.expected.insert(what);
                    }
                } else if pos > self.max_pos {
                    self.max_pos = pos;
                }
            }
            crate::RuleResult::Failed
        }
    }

    #[doc(hidden)]
    pub fn run<T>(
        input: &str,
        mut rule: impl FnMut(&mut ErrorState) -> crate::RuleResult<T>,
    ) -> Result<T, ParseError<crate::str::LineCol>> {
        let mut state = ErrorState::new();
        for pass in 0..2 {
            match rule(&mut state) {
                crate::RuleResult::Matched(pos, value) if pos == input.len() => return Ok(value),
                crate::RuleResult::Matched(pos, _) => {
                    let _: crate::RuleResult<()> = state.fail(pos, "EOF");
                }
                crate::RuleResult::Failed => {}
            }
            if pass == 0 {
                state.quiet = 0;
                state.collecting = true;
            }
        }
        Err(ParseError {
            location: crate::str::line_col(input, state.max_pos),
            expected: ExpectedSet { expected: state.expected },
        })
    }
}
