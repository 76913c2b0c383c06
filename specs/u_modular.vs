@include lib.vs
@import m_gcdx.vs
@import m_modinv.vs
@import m_modular0.vs
@include m_modular.vs
fn main() {}
}
