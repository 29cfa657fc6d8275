    /// retain with that closure: the elements not yet in the set, each once
    fn RETAIN0(client_ids: &mut TargetList<T>, s: &mut HashSet<T>)
        ensures final(client_ids)@.no_duplicates(), final(client_ids)@.to_set() == old(client_ids)@.to_set().difference(old(s)@), final(s)@ == old(s)@.union(old(client_ids)@.to_set()),
            final(client_ids)@.len() <= old(client_ids)@.len(), forall|p: T| #[trigger] final(client_ids)@.contains(p) <==> old(client_ids)@.contains(p) && !old(s)@.contains(p)
    {
        let ghost o = client_ids@;
        let ghost s0 = s@;
        let mut out: Vec<T> = Vec::new();
        let mut i: usize = 0;
        proof { assert(o.take(0) =~= Seq::<T>::empty()); assert(out@.to_set() =~= o.take(0).to_set().difference(s0)); assert(s@ =~= s0.union(o.take(0).to_set())); }
        while i < client_ids.v.len()
            invariant i <= client_ids@.len(), client_ids@ == o, out@.no_duplicates(), out@.to_set() == o.take(i as int).to_set().difference(s0), s@ == s0.union(o.take(i as int).to_set()), out@.len() <= i
            decreases client_ids@.len() - i
        {
            let x = client_ids.v[i];
            let ghost out0 = out@;
            let ghost t0 = o.take(i as int);
            if Self::KEEP0(&x, s) { out.push(x); }
            i += 1;
            proof {
                assert(o.take(i as int) =~= t0.push(x));
                push_set(t0, x);
                push_set(out0, x);
                assert(out0.to_set().contains(x) <==> out0.contains(x));
                assert(out@.to_set() =~= o.take(i as int).to_set().difference(s0));
                assert(s@ =~= s0.union(o.take(i as int).to_set()));
            }
        }
        client_ids.v = out;
        proof { assert(o.take(o.len() as int) =~= o); assert forall|p: T| #[trigger] client_ids@.contains(p) <==> o.contains(p) && !s0.contains(p) by { assert(client_ids@.to_set().contains(p) <==> o.to_set().contains(p) && !s0.contains(p)); } }
    }
