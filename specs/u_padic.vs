@include lib.vs
@import m_gcdx.vs
@import m_modinv.vs
@import m_modular0.vs
@import m_modular.vs
@include m_padic.vs
fn main() {}
}
