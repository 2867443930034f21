%file expanded/point.rs
%module builtin::point
%prelude
// the calls a generator must have seen when it made p: one per coordinate, in order
pub open spec fn calls<P: Point>(p: P) -> Seq<(usize, P::Scalar)> { Seq::new(P::DIMENSIONS as nat, |i: int| (i as usize, p.c(i))) }
// ---- an implementation that meets Point's contract is a faithful coordinate vector
// reading gives what was generated
pub fn c17_read<P: Point, G: Fn(usize) -> P::Scalar>(g: G, i: usize) -> (r: P::Scalar)
    requires i < P::DIMENSIONS, forall|k: usize| k < P::DIMENSIONS ==> #[trigger] call_requires(g, (k,))
    ensures call_ensures(g, (i,), r)
{
    let p = P::generate(g);
    p.nth(i)
}
// writing one coordinate changes that one and no other
pub fn c17_write<P: Point>(p: &mut P, i: usize, j: usize, x: P::Scalar) -> (r: P::Scalar)
    requires i < P::DIMENSIONS, j < P::DIMENSIONS
    ensures r == if j == i { x } else { old(p).c(j as int) }
{
    *p.nth_mut(i) = x;
    p.nth(j)
}
%item impl Point for [S;N]
%extra
    open spec fn c(&self, i: int) -> S { self@[i] }
    // [(); N] with N = 0 has no axis: excluded, no tree accepts fewer than two (C20)
    axiom fn dim_law();
    // an array has one element per index
    axiom fn make(f: spec_fn(int) -> S) -> (r: Self);
    proof fn ext_law(a: &Self, b: &Self) {
        assert forall|i: int| 0 <= i < N implies a@[i] == b@[i] by { assert(a.c(i) == b.c(i)); }
        assert(a@ =~= b@);
    }
%item impl Point for [S;N]::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%loop 0
    invariant idx == vx_k, vx_m@.len() == vx_k, forall|i: usize| i < N ==> #[trigger] call_requires(generator, (i,)),
        forall|i: usize| i < vx_k ==> call_ensures(generator, (i,), #[trigger] vx_m@[i as int]),
%item impl Point for [S;N]::generate#log_array
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%loop 0
    invariant idx == vx_k, vx_m@.len() == vx_k, vx_g.log() == l0 + Seq::new(vx_k as nat, |i: int| (i as usize, vx_m@[i])),
%at loopstart 0
    let ghost m0 = vx_m@;
%at loopend 0
    proof { assert(vx_g.log() =~= l0 + Seq::new((vx_k + 1) as nat, |i: int| (i as usize, vx_m@[i]))); }
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for [S;N]::nth
%ret r
%item impl Point for [S;N]::nth_mut
%ret r
%item impl Point for (S,)
%extra
    open spec fn c(&self, i: int) -> S { self.0 }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); }
%item impl Point for (S,)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,)::generate#log_tuple1
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,)::nth
%ret r
%item impl Point for (S,)::nth_mut
%ret r
%item impl Point for (S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else { self.1 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); }
%item impl Point for (S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S)::generate#log_tuple2
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S)::nth
%ret r
%item impl Point for (S,S)::nth_mut
%ret r
%item impl Point for (S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else { self.2 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); }
%item impl Point for (S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S)::generate#log_tuple3
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S)::nth
%ret r
%item impl Point for (S,S,S)::nth_mut
%ret r
%item impl Point for (S,S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else if i == 2 { self.2 } else { self.3 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),f(3),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); assert(a.c(3) == b.c(3)); }
%item impl Point for (S,S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S,S)::generate#log_tuple4
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S,S)::nth
%ret r
%item impl Point for (S,S,S,S)::nth_mut
%ret r
%item impl Point for (S,S,S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else if i == 2 { self.2 } else if i == 3 { self.3 } else { self.4 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),f(3),f(4),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); assert(a.c(3) == b.c(3)); assert(a.c(4) == b.c(4)); }
%item impl Point for (S,S,S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S,S,S)::generate#log_tuple5
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S,S,S)::nth
%ret r
%item impl Point for (S,S,S,S,S)::nth_mut
%ret r
%item impl Point for (S,S,S,S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else if i == 2 { self.2 } else if i == 3 { self.3 } else if i == 4 { self.4 } else { self.5 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),f(3),f(4),f(5),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); assert(a.c(3) == b.c(3)); assert(a.c(4) == b.c(4)); assert(a.c(5) == b.c(5)); }
%item impl Point for (S,S,S,S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S,S,S,S)::generate#log_tuple6
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S,S,S,S)::nth
%ret r
%item impl Point for (S,S,S,S,S,S)::nth_mut
%ret r
%item impl Point for (S,S,S,S,S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else if i == 2 { self.2 } else if i == 3 { self.3 } else if i == 4 { self.4 } else if i == 5 { self.5 } else { self.6 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),f(3),f(4),f(5),f(6),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); assert(a.c(3) == b.c(3)); assert(a.c(4) == b.c(4)); assert(a.c(5) == b.c(5)); assert(a.c(6) == b.c(6)); }
%item impl Point for (S,S,S,S,S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S,S,S,S,S)::generate#log_tuple7
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S,S,S,S,S)::nth
%ret r
%item impl Point for (S,S,S,S,S,S,S)::nth_mut
%ret r
%item impl Point for (S,S,S,S,S,S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else if i == 2 { self.2 } else if i == 3 { self.3 } else if i == 4 { self.4 } else if i == 5 { self.5 } else if i == 6 { self.6 } else { self.7 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),f(3),f(4),f(5),f(6),f(7),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); assert(a.c(3) == b.c(3)); assert(a.c(4) == b.c(4)); assert(a.c(5) == b.c(5)); assert(a.c(6) == b.c(6)); assert(a.c(7) == b.c(7)); }
%item impl Point for (S,S,S,S,S,S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S,S,S,S,S,S)::generate#log_tuple8
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S,S,S,S,S,S)::nth
%ret r
%item impl Point for (S,S,S,S,S,S,S,S)::nth_mut
%ret r
%item impl Point for (S,S,S,S,S,S,S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else if i == 2 { self.2 } else if i == 3 { self.3 } else if i == 4 { self.4 } else if i == 5 { self.5 } else if i == 6 { self.6 } else if i == 7 { self.7 } else { self.8 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),f(3),f(4),f(5),f(6),f(7),f(8),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); assert(a.c(3) == b.c(3)); assert(a.c(4) == b.c(4)); assert(a.c(5) == b.c(5)); assert(a.c(6) == b.c(6)); assert(a.c(7) == b.c(7)); assert(a.c(8) == b.c(8)); }
%item impl Point for (S,S,S,S,S,S,S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S,S,S,S,S,S,S)::generate#log_tuple9
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S,S,S,S,S,S,S)::nth
%ret r
%item impl Point for (S,S,S,S,S,S,S,S,S)::nth_mut
%ret r
%item impl Point for (S,S,S,S,S,S,S,S,S,S)
%extra
    open spec fn c(&self, i: int) -> S { if i == 0 { self.0 } else if i == 1 { self.1 } else if i == 2 { self.2 } else if i == 3 { self.3 } else if i == 4 { self.4 } else if i == 5 { self.5 } else if i == 6 { self.6 } else if i == 7 { self.7 } else if i == 8 { self.8 } else { self.9 } }
    proof fn dim_law() {}
    proof fn make(f: spec_fn(int) -> S) -> (r: Self) { (f(0),f(1),f(2),f(3),f(4),f(5),f(6),f(7),f(8),f(9),) }
    proof fn ext_law(a: &Self, b: &Self) { assert(a.c(0) == b.c(0)); assert(a.c(1) == b.c(1)); assert(a.c(2) == b.c(2)); assert(a.c(3) == b.c(3)); assert(a.c(4) == b.c(4)); assert(a.c(5) == b.c(5)); assert(a.c(6) == b.c(6)); assert(a.c(7) == b.c(7)); assert(a.c(8) == b.c(8)); assert(a.c(9) == b.c(9)); }
%item impl Point for (S,S,S,S,S,S,S,S,S,S)::generate
%opt fnmut_to_fn
%opt named_impl
%ret r
%item impl Point for (S,S,S,S,S,S,S,S,S,S)::generate#log_tuple10
%opt gen_log
%ret r
%sig
    ensures final(vx_g).log() == old(vx_g).log() + calls(r)
%at start
    let ghost l0 = vx_g.log();
%at tail
    proof { assert(vx_g.log() =~= l0 + calls(vx_r)); }
%item impl Point for (S,S,S,S,S,S,S,S,S,S)::nth
%ret r
%item impl Point for (S,S,S,S,S,S,S,S,S,S)::nth_mut
%ret r
