@include lib.vs
@include m_partition.vs
fn main() {}
}
