@include lib.vs
@include m_label0.vs
@include m_label.vs
fn main() {}
}
