//@fn src/encodings/atomics.rs lit_impl_lit
//@ret r
    ensures forall|s: Asg| #[trigger] cl_true(r.s(), s) <==> (tv(s, a) ==> tv(s, b)), mentions(r.s(), seq![a], seq![b]),
//@ghost end
    proof { lem_impl_form(seq![a], seq![b], vx_tail.s()); }
//@end
//@fn src/encodings/atomics.rs lit_impl_clause
//@ret r
    ensures forall|s: Asg| #[trigger] cl_true(r.s(), s) <==> (tv(s, a) ==> cl_true(b@, s)), mentions(r.s(), seq![a], b@),
//@ghost end
    proof { lem_impl_form(seq![a], b@, vx_tail.s()); }
//@end
//@fn src/encodings/atomics.rs cube_impl_lit chains=loop collect0=via:vx_clause
//@ret r
    ensures forall|s: Asg| #[trigger] cl_true(r.s(), s) <==> (cube_true(a@, s) ==> tv(s, b)), mentions(r.s(), a@, seq![b]),
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i],
        vx_acc0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> #[trigger] vx_acc0@[i] == a@[i].opp(),
//@ghost end
    proof { lem_impl_form(a@, seq![b], vx_tail.s()); }
//@end
//@fn src/encodings/atomics.rs cube_impl_clause chains=loop push=add
//@ret r
    ensures forall|s: Asg| #[trigger] cl_true(r.s(), s) <==> (cube_true(a@, s) ==> cl_true(b@, s)), mentions(r.s(), a@, b@),
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i],
        cl.s() =~= b@ + opps(a@.take(it.index@ as int)),
//@ghost end
    proof { assert(a@.take(a@.len() as int) == a@); lem_impl_form(a@, b@, vx_tail.s()); }
//@end
//@fn src/encodings/atomics.rs lit_impl_cube chains=loop ret_iter=Vec<Clause> collect0=vec:Clause
//@ret r
    ensures forall|s: Asg| #[trigger] cnf_true(r@, s) <==> (tv(s, a) ==> cube_true(b@, s)), cnf_mentions(r@, seq![a], b@),
//@loop 0 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> *(#[trigger] it.seq()[i]) == b@[i],
        vx_acc0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> is_impl(seq![a], seq![b@[i]], #[trigger] vx_acc0@[i].s()),
//@ghost loop 0 end
    proof { lem_impl_form(seq![a], seq![b@[it.index@ as int]], vx_acc0@[it.index@ as int].s()); }
//@ghost end
    proof { lem_impl_cube(seq![a], b@, vx_tail@); }
//@end
//@fn src/encodings/atomics.rs clause_impl_lit chains=loop ret_iter=Vec<Clause> collect0=vec:Clause
//@ret r
    ensures forall|s: Asg| #[trigger] cnf_true(r@, s) <==> (cl_true(a@, s) ==> tv(s, b)), cnf_mentions(r@, a@, seq![b]),
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i],
        vx_acc0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> is_impl(seq![a@[i]], seq![b], #[trigger] vx_acc0@[i].s()),
//@ghost loop 0 end
    proof { lem_impl_form(seq![a@[it.index@ as int]], seq![b], vx_acc0@[it.index@ as int].s()); }
//@ghost end
    proof { lem_clause_impl(a@, seq![b], vx_tail@); assert(forall|s: Asg| #[trigger] cl_true(seq![b], s) <==> tv(s, b)) by { lem_single(); } }
//@end
//@fn src/encodings/atomics.rs clause_impl_clause chains=loop ret_iter=Vec<Clause> collect0=vec:Clause
//@ret r
    ensures forall|s: Asg| #[trigger] cnf_true(r@, s) <==> (cl_true(a@, s) ==> cl_true(b@, s)), cnf_mentions(r@, a@, b@),
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i],
        vx_acc0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> is_impl(seq![a@[i]], b@, #[trigger] vx_acc0@[i].s()),
//@ghost loop 0 end
    proof { lem_impl_form(seq![a@[it.index@ as int]], b@, vx_acc0@[it.index@ as int].s()); }
//@ghost end
    proof { lem_clause_impl(a@, b@, vx_tail@); }
//@end
//@fn src/encodings/atomics.rs cube_impl_cube chains=loop ret_iter=Vec<Clause> collect0=vec:Clause collect1=via:vx_clause
//@ret r
    ensures forall|s: Asg| #[trigger] cnf_true(r@, s) <==> (cube_true(a@, s) ==> cube_true(b@, s)), cnf_mentions(r@, a@, b@),
//@loop 0 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> *(#[trigger] it.seq()[i]) == b@[i],
        vx_acc0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> is_impl(a@, seq![b@[i]], #[trigger] vx_acc0@[i].s()),
//@loop 1 iter=it2
    invariant it2.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it2.seq()[i]) == a@[i],
        vx_acc1@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> #[trigger] vx_acc1@[i] == a@[i].opp(),
//@ghost loop 0 end
    proof { lem_impl_form(a@, seq![b@[it.index@ as int]], vx_acc0@[it.index@ as int].s()); }
//@ghost end
    proof { lem_impl_cube(a@, b@, vx_tail@); }
//@end
//@fn src/encodings/atomics.rs clause_impl_cube chains=loop ret_iter=Vec<Clause> collect0=vec:Clause
//@ret r
    ensures forall|s: Asg| #[trigger] cnf_true(r@, s) <==> (cl_true(a@, s) ==> cube_true(b@, s)), cnf_mentions(r@, a@, b@),
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i],
        vx_acc0@.len() == it.index@ * b@.len(),
        forall|i: int, j: int| 0 <= i < it.index@ && 0 <= j < b@.len() ==> is_impl(seq![a@[i]], seq![#[trigger] b@[j]], vx_acc0@[#[trigger] at(i, b@.len(), j)].s()),
        forall|k: int| 0 <= k < vx_acc0@.len() ==> cross(a@, b@, #[trigger] vx_acc0@[k].s()),
//@loop 1 iter=it2
    invariant it2.seq().len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> *(#[trigger] it2.seq()[i]) == b@[i],
        0 <= it.index@ < a@.len(), *ai == a@[it.index@ as int],
        vx_acc0@.len() == at(it.index@ as int, b@.len(), it2.index@ as int),
        forall|i: int, j: int| 0 <= i < it.index@ && 0 <= j < b@.len() ==> is_impl(seq![a@[i]], seq![#[trigger] b@[j]], vx_acc0@[#[trigger] at(i, b@.len(), j)].s()),
        forall|j: int| 0 <= j < it2.index@ ==> is_impl(seq![*ai], seq![#[trigger] b@[j]], vx_acc0@[at(it.index@ as int, b@.len(), j)].s()),
        forall|k: int| 0 <= k < vx_acc0@.len() ==> cross(a@, b@, #[trigger] vx_acc0@[k].s()),
//@ghost loop 1 start
    let ghost acc = vx_acc0@;
//@ghost loop 1 end
    proof {
        lem_impl_form(seq![*ai], seq![b@[it2.index@ as int]], vx_acc0@[acc.len() as int].s());
        assert forall|i: int, j: int| 0 <= i < it.index@ && 0 <= j < b@.len() implies is_impl(seq![a@[i]], seq![#[trigger] b@[j]], vx_acc0@[#[trigger] at(i, b@.len(), j)].s()) by {
            lem_at(i, it.index@ as int, b@.len(), j);
        }
    }
//@ghost loop 0 end
    proof { lem_at_next(it.index@ as int, b@.len()); }
//@ghost end
    proof { lem_clause_cube(a@, b@, vx_tail@); }
//@end
