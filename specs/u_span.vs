@include lib.vs
@import m_matrices.vs
@include m_span.vs
fn main() {}
}
