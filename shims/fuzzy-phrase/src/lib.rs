//! Stand-in for fuzzy-phrase (a git dependency, not in the offline cache): a scripted double. It answers with what
//! the harness put in `script()`, and records what it was asked.
pub mod glue {
    use serde::{Deserialize, Serialize};
    use std::cell::RefCell;
    use std::fmt;
    use std::path::Path;

    #[derive(Debug)]
    pub struct Error(pub String);
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;

    /// To a script, its number (see index.js).
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum EndingType {
        NonPrefix = 0,
        AnyPrefix = 1,
        WordBoundaryPrefix = 2,
    }
    impl Serialize for EndingType {
        fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
            s.serialize_u8(*self as u8)
        }
    }
    impl<'de> Deserialize<'de> for EndingType {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
            match u8::deserialize(d)? {
                0 => Ok(EndingType::NonPrefix),
                1 => Ok(EndingType::AnyPrefix),
                2 => Ok(EndingType::WordBoundaryPrefix),
                _ => Err(serde::de::Error::custom("no such ending")),
            }
        }
    }
    #[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq)]
    pub struct WordReplacement {
        pub from: String,
        pub to: String,
    }
    #[derive(Serialize, Debug, Clone, PartialEq)]
    pub struct FuzzyMatchResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub phrase_id_range: (u32, u32),
        pub ending_type: EndingType,
    }
    #[derive(Serialize, Debug, Clone, PartialEq)]
    pub struct FuzzyWindowResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub start_position: usize,
        pub phrase_id_range: (u32, u32),
        pub ending_type: EndingType,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Output(pub u64);
    impl Output {
        pub fn value(self) -> u64 {
            self.0
        }
    }
    #[derive(Debug, Clone)]
    pub struct PrefixBin {
        pub prefix: Vec<u8>,
        pub first: Output,
        pub last: Output,
        pub size: usize,
    }

    /// What the double answers, and what it was asked.
    #[derive(Default)]
    pub struct Script {
        pub bins: Vec<PrefixBin>,
        pub found: bool,
        pub matches: Vec<FuzzyMatchResult>,
        pub windows: Vec<FuzzyWindowResult>,
        pub multi: Vec<Vec<FuzzyMatchResult>>,
        pub by_id: Option<Vec<String>>,
        pub id_map: Vec<u32>,
        pub insert_id: u32,
        pub fail: bool,
        pub asked_phrase: Vec<String>,
        pub asked_phrases: Vec<(Vec<String>, EndingType)>,
        pub asked_dist: (u8, u8),
        pub asked_ending: Option<EndingType>,
        pub asked_id: u32,
        pub asked_size: usize,
        pub asked_replacements: Vec<WordReplacement>,
        pub calls: u32,
    }
    thread_local! {
        static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
    }
    pub fn script<R>(f: impl FnOnce(&mut Script) -> R) -> R {
        SCRIPT.with(|s| f(&mut s.borrow_mut()))
    }
    fn call<R>(f: impl FnOnce(&mut Script) -> R) -> Result<R> {
        script(|s| {
            s.calls += 1;
            if s.fail {
                Err(Error("failed".to_owned()))
            } else {
                Ok(f(s))
            }
        })
    }

    pub struct FuzzyPhraseSetBuilder;
    impl FuzzyPhraseSetBuilder {
        pub fn new<P: AsRef<Path>>(_: P) -> Result<Self> {
            call(|_| FuzzyPhraseSetBuilder)
        }
        pub fn insert<T: AsRef<str>>(&mut self, phrase: &[T]) -> Result<u32> {
            call(|s| {
                s.asked_phrase = phrase.iter().map(|w| w.as_ref().to_owned()).collect();
                s.insert_id
            })
        }
        pub fn load_word_replacements(&mut self, r: Vec<WordReplacement>) -> Result<()> {
            call(|s| s.asked_replacements = r)
        }
        pub fn finish(self) -> Result<Vec<u32>> {
            call(|s| s.id_map.clone())
        }
    }

    pub struct FuzzyPhraseSet;
    impl FuzzyPhraseSet {
        pub fn from_path<P: AsRef<Path>>(_: P) -> Result<Self> {
            call(|_| FuzzyPhraseSet)
        }
        pub fn contains<T: AsRef<str>>(&self, phrase: &[T], e: EndingType) -> Result<bool> {
            call(|s| {
                s.asked_phrase = phrase.iter().map(|w| w.as_ref().to_owned()).collect();
                s.asked_ending = Some(e);
                s.found
            })
        }
        pub fn fuzzy_match<T: AsRef<str>>(&self, phrase: &[T], w: u8, p: u8, e: EndingType) -> Result<Vec<FuzzyMatchResult>> {
            call(|s| {
                s.asked_phrase = phrase.iter().map(|w| w.as_ref().to_owned()).collect();
                s.asked_dist = (w, p);
                s.asked_ending = Some(e);
                s.matches.clone()
            })
        }
        pub fn fuzzy_match_windows<T: AsRef<str>>(&self, phrase: &[T], w: u8, p: u8, e: EndingType) -> Result<Vec<FuzzyWindowResult>> {
            call(|s| {
                s.asked_phrase = phrase.iter().map(|w| w.as_ref().to_owned()).collect();
                s.asked_dist = (w, p);
                s.asked_ending = Some(e);
                s.windows.clone()
            })
        }
        pub fn fuzzy_match_multi<U: AsRef<str>, T: AsRef<[U]>>(
            &self,
            phrases: &[(T, EndingType)],
            w: u8,
            p: u8,
        ) -> Result<Vec<Vec<FuzzyMatchResult>>> {
            call(|s| {
                s.asked_phrases = phrases
                    .iter()
                    .map(|(t, e)| (t.as_ref().iter().map(|w| w.as_ref().to_owned()).collect(), *e))
                    .collect();
                s.asked_dist = (w, p);
                s.multi.clone()
            })
        }
        pub fn get_by_phrase_id(&self, id: u32) -> Result<Option<Vec<String>>> {
            call(|s| {
                s.asked_id = id;
                s.by_id.clone()
            })
        }
        pub fn get_prefix_bins(&self, size: usize) -> Result<Vec<PrefixBin>> {
            call(|s| {
                s.asked_size = size;
                s.bins.clone()
            })
        }
    }
}
