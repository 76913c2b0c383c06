@include lib.vs
@include m_gcdx.vs
@include m_modinv.vs
fn main() {}
}
