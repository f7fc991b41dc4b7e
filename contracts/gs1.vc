=== spec
/// GS1 number sets A, B, C
pub open spec fn eanA(d: u8) -> Seq<u8> {
    if d == 0 { seq![0u8,0,0,1,1,0,1] } else if d == 1 { seq![0u8,0,1,1,0,0,1] } else if d == 2 { seq![0u8,0,1,0,0,1,1] }
    else if d == 3 { seq![0u8,1,1,1,1,0,1] } else if d == 4 { seq![0u8,1,0,0,0,1,1] } else if d == 5 { seq![0u8,1,1,0,0,0,1] }
    else if d == 6 { seq![0u8,1,0,1,1,1,1] } else if d == 7 { seq![0u8,1,1,1,0,1,1] } else if d == 8 { seq![0u8,1,1,0,1,1,1] }
    else { seq![0u8,0,0,1,0,1,1] }
}
pub open spec fn compl7(s: Seq<u8>) -> Seq<u8> { seq![(1 - s[0]) as u8, (1 - s[1]) as u8, (1 - s[2]) as u8, (1 - s[3]) as u8, (1 - s[4]) as u8, (1 - s[5]) as u8, (1 - s[6]) as u8] }
pub open spec fn rev7(s: Seq<u8>) -> Seq<u8> { seq![s[6], s[5], s[4], s[3], s[2], s[1], s[0]] }
pub open spec fn eanC(d: u8) -> Seq<u8> { compl7(eanA(d)) }
pub open spec fn eanB(d: u8) -> Seq<u8> { rev7(eanC(d)) }
pub open spec fn eanset(k: int, d: u8) -> Seq<u8> { if k == 0 { eanA(d) } else if k == 1 { eanB(d) } else { eanC(d) } }
/// sets of digits 3..7 (digit 2 is always in set A): 0 = A, 1 = B
pub open spec fn par13(d: u8) -> Seq<int> {
    if d == 0 { seq![0int,0,0,0,0] } else if d == 1 { seq![0int,1,0,1,1] } else if d == 2 { seq![0int,1,1,0,1] }
    else if d == 3 { seq![0int,1,1,1,0] } else if d == 4 { seq![1int,0,0,1,1] } else if d == 5 { seq![1int,1,0,0,1] }
    else if d == 6 { seq![1int,1,1,0,0] } else if d == 7 { seq![1int,0,1,0,1] } else if d == 8 { seq![1int,0,1,1,0] }
    else { seq![1int,1,0,1,0] }
}
/// first k digits of ds, digit j in set par[j]
pub open spec fn eanrow(ds: Seq<u8>, par: Seq<int>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::<u8>::empty() } else { eanrow(ds, par, k - 1) + eanset(par[k - 1], ds[k - 1]) }
}
