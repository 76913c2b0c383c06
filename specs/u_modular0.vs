@include lib.vs
@import m_gcdx.vs
@include m_modular0.vs
fn main() {}
}
