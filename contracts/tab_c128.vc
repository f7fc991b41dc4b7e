=== spec
/// ISO 15417 symbol value -> modules
pub open spec fn c128_pat(v: int) -> Seq<u8> {
    if v == 0 { seq![1u8,1,0,1,1,0,0,1,1,0,0] }
    else if v == 1 { seq![1u8,1,0,0,1,1,0,1,1,0,0] }
    else if v == 2 { seq![1u8,1,0,0,1,1,0,0,1,1,0] }
    else if v == 3 { seq![1u8,0,0,1,0,0,1,1,0,0,0] }
    else if v == 4 { seq![1u8,0,0,1,0,0,0,1,1,0,0] }
    else if v == 5 { seq![1u8,0,0,0,1,0,0,1,1,0,0] }
    else if v == 6 { seq![1u8,0,0,1,1,0,0,1,0,0,0] }
    else if v == 7 { seq![1u8,0,0,1,1,0,0,0,1,0,0] }
    else if v == 8 { seq![1u8,0,0,0,1,1,0,0,1,0,0] }
    else if v == 9 { seq![1u8,1,0,0,1,0,0,1,0,0,0] }
    else if v == 10 { seq![1u8,1,0,0,1,0,0,0,1,0,0] }
    else if v == 11 { seq![1u8,1,0,0,0,1,0,0,1,0,0] }
    else if v == 12 { seq![1u8,0,1,1,0,0,1,1,1,0,0] }
    else if v == 13 { seq![1u8,0,0,1,1,0,1,1,1,0,0] }
    else if v == 14 { seq![1u8,0,0,1,1,0,0,1,1,1,0] }
    else if v == 15 { seq![1u8,0,1,1,1,0,0,1,1,0,0] }
    else if v == 16 { seq![1u8,0,0,1,1,1,0,1,1,0,0] }
    else if v == 17 { seq![1u8,0,0,1,1,1,0,0,1,1,0] }
    else if v == 18 { seq![1u8,1,0,0,1,1,1,0,0,1,0] }
    else if v == 19 { seq![1u8,1,0,0,1,0,1,1,1,0,0] }
    else if v == 20 { seq![1u8,1,0,0,1,0,0,1,1,1,0] }
    else if v == 21 { seq![1u8,1,0,1,1,1,0,0,1,0,0] }
    else if v == 22 { seq![1u8,1,0,0,1,1,1,0,1,0,0] }
    else if v == 23 { seq![1u8,1,1,0,1,1,0,1,1,1,0] }
    else if v == 24 { seq![1u8,1,1,0,1,0,0,1,1,0,0] }
    else if v == 25 { seq![1u8,1,1,0,0,1,0,1,1,0,0] }
    else if v == 26 { seq![1u8,1,1,0,0,1,0,0,1,1,0] }
    else if v == 27 { seq![1u8,1,1,0,1,1,0,0,1,0,0] }
    else if v == 28 { seq![1u8,1,1,0,0,1,1,0,1,0,0] }
    else if v == 29 { seq![1u8,1,1,0,0,1,1,0,0,1,0] }
    else if v == 30 { seq![1u8,1,0,1,1,0,1,1,0,0,0] }
    else if v == 31 { seq![1u8,1,0,1,1,0,0,0,1,1,0] }
    else if v == 32 { seq![1u8,1,0,0,0,1,1,0,1,1,0] }
    else if v == 33 { seq![1u8,0,1,0,0,0,1,1,0,0,0] }
    else if v == 34 { seq![1u8,0,0,0,1,0,1,1,0,0,0] }
    else if v == 35 { seq![1u8,0,0,0,1,0,0,0,1,1,0] }
    else if v == 36 { seq![1u8,0,1,1,0,0,0,1,0,0,0] }
    else if v == 37 { seq![1u8,0,0,0,1,1,0,1,0,0,0] }
    else if v == 38 { seq![1u8,0,0,0,1,1,0,0,0,1,0] }
    else if v == 39 { seq![1u8,1,0,1,0,0,0,1,0,0,0] }
    else if v == 40 { seq![1u8,1,0,0,0,1,0,1,0,0,0] }
    else if v == 41 { seq![1u8,1,0,0,0,1,0,0,0,1,0] }
    else if v == 42 { seq![1u8,0,1,1,0,1,1,1,0,0,0] }
    else if v == 43 { seq![1u8,0,1,1,0,0,0,1,1,1,0] }
    else if v == 44 { seq![1u8,0,0,0,1,1,0,1,1,1,0] }
    else if v == 45 { seq![1u8,0,1,1,1,0,1,1,0,0,0] }
    else if v == 46 { seq![1u8,0,1,1,1,0,0,0,1,1,0] }
    else if v == 47 { seq![1u8,0,0,0,1,1,1,0,1,1,0] }
    else if v == 48 { seq![1u8,1,1,0,1,1,1,0,1,1,0] }
    else if v == 49 { seq![1u8,1,0,1,0,0,0,1,1,1,0] }
    else if v == 50 { seq![1u8,1,0,0,0,1,0,1,1,1,0] }
    else if v == 51 { seq![1u8,1,0,1,1,1,0,1,0,0,0] }
    else if v == 52 { seq![1u8,1,0,1,1,1,0,0,0,1,0] }
    else if v == 53 { seq![1u8,1,0,1,1,1,0,1,1,1,0] }
    else if v == 54 { seq![1u8,1,1,0,1,0,1,1,0,0,0] }
    else if v == 55 { seq![1u8,1,1,0,1,0,0,0,1,1,0] }
    else if v == 56 { seq![1u8,1,1,0,0,0,1,0,1,1,0] }
    else if v == 57 { seq![1u8,1,1,0,1,1,0,1,0,0,0] }
    else if v == 58 { seq![1u8,1,1,0,1,1,0,0,0,1,0] }
    else if v == 59 { seq![1u8,1,1,0,0,0,1,1,0,1,0] }
    else if v == 60 { seq![1u8,1,1,0,1,1,1,1,0,1,0] }
    else if v == 61 { seq![1u8,1,0,0,1,0,0,0,0,1,0] }
    else if v == 62 { seq![1u8,1,1,1,0,0,0,1,0,1,0] }
    else if v == 63 { seq![1u8,0,1,0,0,1,1,0,0,0,0] }
    else if v == 64 { seq![1u8,0,1,0,0,0,0,1,1,0,0] }
    else if v == 65 { seq![1u8,0,0,1,0,1,1,0,0,0,0] }
    else if v == 66 { seq![1u8,0,0,1,0,0,0,0,1,1,0] }
    else if v == 67 { seq![1u8,0,0,0,0,1,0,1,1,0,0] }
    else if v == 68 { seq![1u8,0,0,0,0,1,0,0,1,1,0] }
    else if v == 69 { seq![1u8,0,1,1,0,0,1,0,0,0,0] }
    else if v == 70 { seq![1u8,0,1,1,0,0,0,0,1,0,0] }
    else if v == 71 { seq![1u8,0,0,1,1,0,1,0,0,0,0] }
    else if v == 72 { seq![1u8,0,0,1,1,0,0,0,0,1,0] }
    else if v == 73 { seq![1u8,0,0,0,0,1,1,0,1,0,0] }
    else if v == 74 { seq![1u8,0,0,0,0,1,1,0,0,1,0] }
    else if v == 75 { seq![1u8,1,0,0,0,0,1,0,0,1,0] }
    else if v == 76 { seq![1u8,1,0,0,1,0,1,0,0,0,0] }
    else if v == 77 { seq![1u8,1,1,1,0,1,1,1,0,1,0] }
    else if v == 78 { seq![1u8,1,0,0,0,0,1,0,1,0,0] }
    else if v == 79 { seq![1u8,0,0,0,1,1,1,1,0,1,0] }
    else if v == 80 { seq![1u8,0,1,0,0,1,1,1,1,0,0] }
    else if v == 81 { seq![1u8,0,0,1,0,1,1,1,1,0,0] }
    else if v == 82 { seq![1u8,0,0,1,0,0,1,1,1,1,0] }
    else if v == 83 { seq![1u8,0,1,1,1,1,0,0,1,0,0] }
    else if v == 84 { seq![1u8,0,0,1,1,1,1,0,1,0,0] }
    else if v == 85 { seq![1u8,0,0,1,1,1,1,0,0,1,0] }
    else if v == 86 { seq![1u8,1,1,1,0,1,0,0,1,0,0] }
    else if v == 87 { seq![1u8,1,1,1,0,0,1,0,1,0,0] }
    else if v == 88 { seq![1u8,1,1,1,0,0,1,0,0,1,0] }
    else if v == 89 { seq![1u8,1,0,1,1,0,1,1,1,1,0] }
    else if v == 90 { seq![1u8,1,0,1,1,1,1,0,1,1,0] }
    else if v == 91 { seq![1u8,1,1,1,0,1,1,0,1,1,0] }
    else if v == 92 { seq![1u8,0,1,0,1,1,1,1,0,0,0] }
    else if v == 93 { seq![1u8,0,1,0,0,0,1,1,1,1,0] }
    else if v == 94 { seq![1u8,0,0,0,1,0,1,1,1,1,0] }
    else if v == 95 { seq![1u8,0,1,1,1,1,0,1,0,0,0] }
    else if v == 96 { seq![1u8,0,1,1,1,1,0,0,0,1,0] }
    else if v == 97 { seq![1u8,1,1,1,0,1,0,1,0,0,0] }
    else if v == 98 { seq![1u8,1,1,1,0,1,0,0,0,1,0] }
    else if v == 99 { seq![1u8,0,1,1,1,0,1,1,1,1,0] }
    else if v == 100 { seq![1u8,0,1,1,1,1,0,1,1,1,0] }
    else if v == 101 { seq![1u8,1,1,0,1,0,1,1,1,1,0] }
    else if v == 102 { seq![1u8,1,1,1,0,1,0,1,1,1,0] }
    else if v == 103 { seq![1u8,1,0,1,0,0,0,0,1,0,0] }
    else if v == 104 { seq![1u8,1,0,1,0,0,1,0,0,0,0] }
    else if v == 105 { seq![1u8,1,0,1,0,0,1,1,1,0,0] }
    else { Seq::<u8>::empty() }
}
