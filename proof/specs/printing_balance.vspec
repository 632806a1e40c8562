== module printing_balance
== prelude
//VERUS
/// `number` is the digits a, with b after the point
pub open spec fn pointed(number: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool {
    digits(a) && digits(b) && a.len() >= 1
        && (number == a && b.len() == 0 || number == a + seq!['.'] + b && b.len() >= 1)
}
pub open spec fn prefix(m: int) -> Seq<char> {
    if m == -4 { seq!['T'] } else if m == -3 { seq!['G'] } else if m == -2 { seq!['M'] } else if m == -1 { seq!['k'] }
    else if m == 0 { seq![] } else if m == 1 { seq!['m'] } else if m == 2 { seq!['u'] } else if m == 3 { seq!['n'] }
    else if m == 4 { seq!['p'] } else if m == 5 { seq!['f'] } else { seq!['a'] }
}
pub open spec fn pos(m: int) -> nat { if m > 0 { m as nat } else { 0 } }
/// a.b * 1000^(-m) == n / 10^decimals
pub open spec fn scaled(a: Seq<char>, b: Seq<char>, m: int, n: nat, decimals: nat) -> bool {
    dval(a + b) * p10(decimals + 3 * pos(-m)) == n * p10(b.len() + 3 * pos(m))
}
pub open spec fn exact(number: Seq<char>, units: Seq<char>, n: nat, decimals: nat, unit: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, m: int| -4 <= m <= 6 && #[trigger] pointed(number, a, b)
        && units == #[trigger] prefix(m) + unit && scaled(a, b, m, n, decimals)
}
pub open spec fn opt(b: Option<String>) -> Seq<char> { match b { Some(x) => x@, None => seq![] } }
pub open spec fn cut_ok(c: CutNumber, n: nat, decimals: nat) -> bool {
    -4 <= c.mag <= 6 && digits(c.before_point@) && c.before_point@.len() >= 1 && digits(opt(c.after_point))
        && (c.after_point matches Some(x) ==> x@.len() >= 1)
        && scaled(c.before_point@, opt(c.after_point), c.mag as int, n, decimals)
}
pub proof fn lemma_p10(a: nat, b: nat)
    ensures p10(a + b) == p10(a) * p10(b), p10(a) >= 1
    decreases a + b
{
    if b > 0 {
        lemma_p10(a, (b - 1) as nat);
        let (x, y) = (p10(a), p10((b - 1) as nat));
        assert(10 * (x * y) == x * (10 * y)) by (nonlinear_arith);
    } else {
        if a > 0 { lemma_p10((a - 1) as nat, 0); }
        assert(p10(a) * 1 == p10(a));
    }
}
pub proof fn lemma_dval_cat(a: Seq<char>, b: Seq<char>)
    ensures dval(a + b) == dval(a) * p10(b.len()) + dval(b)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dval_cat(a, b.drop_last());
        let x = dval(a); let y = p10((b.len() - 1) as nat);
        assert(10 * (x * y) == x * (10 * y)) by (nonlinear_arith);
        assert((a + b).last() == b.last());
    } else { assert(a + b =~= a); assert(dval(a) * 1 == dval(a)); }
}
pub proof fn lemma_dval_zeros(b: Seq<char>)
    requires forall|i: int| 0 <= i < b.len() ==> b[i] == '0'
    ensures dval(b) == 0
    decreases b.len()
{ if b.len() > 0 { lemma_dval_zeros(b.drop_last()); } }
pub proof fn lemma_dval_min(s: Seq<char>)
    requires digits(s), s.len() >= 1, s[0] != '0'
    ensures dval(s) >= p10((s.len() - 1) as nat)
    decreases s.len()
{
    if s.len() > 1 { lemma_dval_min(s.drop_last()); }
}
pub proof fn lemma_dec_len(n: nat)
    requires n <= u128::MAX
    ensures dec(n).len() <= 39
{
    axiom_dec(n);
    if dec(n).len() > 39 {
        lemma_dval_min(dec(n));
        lemma_p10(39, (dec(n).len() - 40) as nat);
        assert(p10(39) == 1000000000000000000000000000000000000000nat) by (compute);
        let y = p10((dec(n).len() - 40) as nat);
        lemma_p10((dec(n).len() - 40) as nat, 0);
        assert(p10(39) * y >= p10(39)) by (nonlinear_arith) requires y >= 1;
    }
}
/// the digits before and after the point are those of the value, possibly with zeroes added in front or at the end,
/// and the number of digits after the point fits the prefix
pub proof fn lemma_scaled(a: Seq<char>, b: Seq<char>, m: int, bal: Seq<char>, decimals: nat, front: Seq<char>, back: Seq<char>)
    requires
        a + b == front + bal + back,
        forall|i: int| 0 <= i < front.len() ==> front[i] == '0',
        forall|i: int| 0 <= i < back.len() ==> back[i] == '0',
        decimals + 3 * pos(-m) + back.len() == b.len() + 3 * pos(m) || dval(bal) == 0,
    ensures scaled(a, b, m, dval(bal), decimals)
{
    lemma_dval_cat(front + bal, back);
    lemma_dval_cat(front, bal);
    lemma_dval_zeros(front);
    lemma_dval_zeros(back);
    let k = decimals + 3 * pos(-m);
    lemma_p10(back.len(), k);
    let (v, x, y) = (dval(bal), p10(back.len()), p10(k));
    assert(v * x * y == v * (x * y)) by (nonlinear_arith);
    assert(0 * p10(bal.len()) == 0);
    assert(0 * p10(b.len() + 3 * pos(m)) == 0);
    assert(0 * x * y == 0) by (nonlinear_arith);
}
pub proof fn lemma_prefixes()
    ensures "T"@ == prefix(-4), "G"@ == prefix(-3), "M"@ == prefix(-2), "k"@ == prefix(-1), ""@ == prefix(0), "m"@ == prefix(1),
        "u"@ == prefix(2), "n"@ == prefix(3), "p"@ == prefix(4), "f"@ == prefix(5), "a"@ == prefix(6)
{
    reveal_strlit("T"); reveal_strlit("G"); reveal_strlit("M"); reveal_strlit("k"); reveal_strlit(""); reveal_strlit("m");
    reveal_strlit("u"); reveal_strlit("n"); reveal_strlit("p"); reveal_strlit("f"); reveal_strlit("a");
    assert("T"@ =~= prefix(-4)); assert("G"@ =~= prefix(-3)); assert("M"@ =~= prefix(-2)); assert("k"@ =~= prefix(-1));
    assert(""@ =~= prefix(0)); assert("m"@ =~= prefix(1)); assert("u"@ =~= prefix(2)); assert("n"@ =~= prefix(3));
    assert("p"@ =~= prefix(4)); assert("f"@ =~= prefix(5)); assert("a"@ =~= prefix(6));
}
== trait AsBalance
    spec fn amount(&self) -> nat;
== fn AsBalance::convert_balance_pretty
-- spec
        ensures exact(r.number@, r.units@, value.amount(), decimals as nat, unit@)
== impl u8 as AsBalance
    open spec fn amount(&self) -> nat { *self as nat }
== impl u16 as AsBalance
    open spec fn amount(&self) -> nat { *self as nat }
== impl u32 as AsBalance
    open spec fn amount(&self) -> nat { *self as nat }
== impl u64 as AsBalance
    open spec fn amount(&self) -> nat { *self as nat }
== impl u128 as AsBalance
    open spec fn amount(&self) -> nat { *self as nat }
== fn * as AsBalance::convert_balance_pretty
-- start
    proof { axiom_dec(value as nat); lemma_dec_len(value as nat); }
== fn assist
-- spec
    requires zeroes_after_point_before_value <= 255
    ensures
        r.0@ == seq!['0'], r.2 == 6,
        r.1 matches Some(x) && x@ == Seq::new(zeroes_after_point_before_value as nat, |i: int| '0') + balance@
-- start
    proof { reveal_strlit("0"); assert("0"@ =~= seq!['0']); }
-- rewrite `"0".repeat($n)` => `vx_repeat1("0", $n)`
-- rewrite `String::from("0")` => `"0".vx_show()`
== fn convert_balance_string
-- attr #[verifier::rlimit(200)]
-- attr #[verifier::spinoff_prover]
-- spec
    requires digits(balance@), 1 <= balance@.len() <= 39, balance@.len() > 1 ==> balance@[0] != '0'
    ensures exact(r.number@, r.units@, dval(balance@), decimals as nat, unit@)
-- start
    proof { reveal_strlit("0"); assert("0"@ =~= seq!['0']); reveal_strlit("00"); assert("00"@ =~= seq!['0', '0']); reveal_strlit("."); assert("."@ =~= seq!['.']); lemma_prefixes(); }
-- rewrite `balance.len()` => `vx_ascii_len(balance)`
-- rewrite `balance == "0"` => `vx_str_is(balance, "0")`
-- rewrite `balance[..$x].to_string()` => `vx_ascii_head(balance, $x)`
-- rewrite `balance[$x..].to_string()` => `vx_ascii_tail(balance, $x)`
-- rewrite `String::from($x)` => `$x.vx_show()`
-- before `let unit_prefix`
    proof {
        let (a, b, m) = (transformed_number.before_point@, opt(transformed_number.after_point), transformed_number.mag as int);
        if balance@ == seq!['0'] {
            assert(dval(balance@.drop_last()) == 0);
            assert(dval(balance@) == 0);
            let front = Seq::new((a.len() + b.len() - 1) as nat, |i: int| '0');
            assert(a + b =~= front + balance@ + seq![]);
            lemma_scaled(a, b, m, balance@, decimals as nat, front, seq![]);
        } else {
            let k = b.len() + 3 * pos(m) - decimals - 3 * pos(-m);
            let f = a.len() + b.len() - balance@.len() - k;
            assert(k >= 0);
            assert(f >= 0);
            let front = Seq::new(f as nat, |i: int| '0');
            let back = Seq::new(k as nat, |i: int| '0');
            assert(a + b =~= front + balance@ + back);
            lemma_scaled(a, b, m, balance@, decimals as nat, front, back);
        }
        assert(cut_ok(transformed_number, dval(balance@), decimals as nat));
        assert(pointed(if b.len() == 0 { a } else { a + seq!['.'] + b }, a, b));
        assert(prefix(m) + unit@ == prefix(m) + unit@);
    }
