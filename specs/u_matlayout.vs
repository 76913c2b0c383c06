@include lib.vs
@include m_matrices.vs
fn main() {}
}
