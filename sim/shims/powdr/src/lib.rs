//! Stand-in for powdr, whose source is not available here: reads the part of the PIL language the
//! repository's templates use (constants, namespaces, fixed, committed and intermediate columns,
//! publics, polynomial identities and connections) into powdr's analysed form.
pub mod ast;
mod parse;
pub mod number {
    pub trait FieldElement: Clone + std::fmt::Display {
        fn of(x: u64) -> Self;
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct GoldilocksField(pub u64);
    impl std::fmt::Display for GoldilocksField {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl FieldElement for GoldilocksField {
        fn of(x: u64) -> Self {
            GoldilocksField(x)
        }
    }
}
pub mod pil_analyzer {
    use crate::ast::analyzed::Analyzed;
    use crate::number::FieldElement;
    pub fn analyze_string<T: FieldElement>(text: &str) -> Analyzed<T> {
        crate::parse::analyze(text, None).unwrap_or_else(|e| panic!("PIL: {e}"))
    }
    pub fn analyze_file<T: FieldElement>(path: &std::path::Path) -> Analyzed<T> {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
        let name = path.to_string_lossy().into_owned();
        crate::parse::analyze(&text, Some(&name)).unwrap_or_else(|e| panic!("PIL: {e}"))
    }
}
