// GENERATED: code extracted from /repo/src merged with /verif/overlay (see DESIGN.md)
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, non_snake_case, unused_braces, unused_assignments, unused_unsafe)]
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
