
// ------------------------------------------------------------- C15 (spec)

pub open spec fn part(m: SMap, k: Str) -> Str { if m.contains_key(k) { "/"@ + m[k] } else { Seq::empty() } }
/// Keys that do not take part in the sorted tail of a column name.
pub open spec fn special(k: Str) -> bool {
    k == "metric"@ || k == "unit"@ || k == "grouping_power"@ || k == "max_value_power"@ || k == "id"@
        || k == "name"@ || k == "op"@ || k == "state"@ || k == "direction"@
}
pub open spec fn tail(m: SMap, ks: Seq<Str>) -> Str decreases ks.len() {
    if ks.len() == 0 { Seq::empty() }
    else if special(ks.last()) { tail(m, ks.drop_last()) }
    else { tail(m, ks.drop_last()) + ("/"@ + m[ks.last()]) }
}
pub open spec fn column_name(n: Str, m: SMap) -> Str {
    if !m.contains_key("metric"@) { n }
    else { m["metric"@] + part(m, "name"@) + part(m, "op"@) + part(m, "state"@) + part(m, "direction"@)
        + tail(m, ascending(m.dom())) + part(m, "id"@) }
}

pub open spec fn str_map(m: Map<Str, &str>) -> SMap { m.map_values(|v: &str| v@) }
pub open spec fn parts(m: SMap, ks: Seq<&str>) -> Str decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { parts(m, ks.drop_last()) + part(m, ks.last()@) }
}
/// Listing a map's entries and inserting them again gives the same entries.
pub proof fn lemma_relist(m: Map<Str, String>, s: Seq<(&String, &String)>, t: Seq<(&str, &str)>)
    requires
        lists(m, s), t.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@,
    ensures str_map(map_of(t)) == text_map(m),
{
    lemma_map_of(t);
    let a = str_map(map_of(t));
    let b = text_map(m);
    assert forall|k: Str| a.contains_key(k) <==> b.contains_key(k) by {
        if a.contains_key(k) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k;
            assert(s[i].0.txt() == k);
        }
        if b.contains_key(k) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.txt() == k;
            assert(t[i].0@ == k);
        }
    }
    assert forall|k: Str| a.contains_key(k) implies a[k] == b[k] by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k && map_of(t)[k] == t[i].1;
        assert(s[i].0.txt() == k);
    }
    assert(a =~= b);
}
pub proof fn lemma_map_of<V>(t: Seq<(&str, V)>)
    ensures
        forall|i: int| 0 <= i < t.len() ==> map_of(t).contains_key((#[trigger] t[i]).0@),
        forall|k: Str| #[trigger] map_of(t).contains_key(k) ==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k && map_of(t)[k] == t[i].1,
    decreases t.len(),
{
    if t.len() > 0 {
        let d = t.drop_last();
        lemma_map_of(d);
        assert forall|i: int| 0 <= i < t.len() implies map_of(t).contains_key((#[trigger] t[i]).0@) by {
            if i < t.len() - 1 { assert(d[i] == t[i]); }
        }
        assert forall|k: Str| #[trigger] map_of(t).contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k && map_of(t)[k] == t[i].1 by {
            if k == t.last().0@ { assert(t[t.len() - 1].0@ == k); }
            else {
                assert(map_of(d).contains_key(k));
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0@ == k && map_of(d)[k] == d[i].1;
                assert(t[i] == d[i]);
            }
        }
    }
}

//# item metriken-exposition fn canonicalize_metric_name [string_add]
pub(crate) fn canonicalize_metric_name(
    snapshot_name: &str,
    metadata: &HashMap<String, String>
) -> ‹String›«(r: String)
    ensures r@ =~= column_name(snapshot_name@, text_map(metadata@)),
»{
    «proof { reveal_strlit("/"); }
    let ghost m = text_map(metadata@);
    let ghost h = metadata@;»
    let Some(name) = metadata.get("metric") else {
        return snapshot_name.to_string_v();
    };
    let metadata: BTreeMap<&str, &str> = metadata
        .iter_v()
        .map(|p_0 «: (&String, &String)»| «-> (r: (&str, &str)) ensures r.0@ == p_0.0@, r.1@ == p_0.1@» { let (k, v) = p_0; (k.as_str(), v.as_str()) })
        .collect();
    «proof {
        let (s, t) = choose|s: Seq<(&String, &String)>, t: Seq<(&str, &str)>| lists(h, s) && t.len() == s.len() && metadata@ == map_of(t)
            && forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0@ == s[i].0@ && t[i].1@ == s[i].1@;
        lemma_relist(h, s, t);
        assert(str_map(metadata@).dom() =~= metadata@.dom());
    }»
    let ordered = ["name", "op", "state", "direction"];
    let mut ignore: HashSet<&str> =
        ["metric", "unit", "grouping_power", "max_value_power", "id"].into_v();
    ignore.extend(ordered);
    «proof {
        reveal_with_fuel(set_of, 7);
        assert forall|k: Str| #[trigger] ignore@.contains(k) <==> special(k) by {}
    }»
    let mut unique_name = name.to_string_v();
    «let ghost mut n = 0int;»
    let mut it_0 = (ordered).into_iter_v();
    loop «
        invariant
            0 <= n <= ordered@.len(),
            it_0@ == ordered@.skip(n),
            str_map(metadata@) == m,
            unique_name@ =~= name@ + parts(m, ordered@.take(n)),
        ensures n == ordered@.len(),
        decreases it_0@.len(),
    »{ match it_0.next() { None => { break; } Some(k) => {
        «proof {
            assert(k == ordered@[n]);
            reveal_strlit("/");
            assert(ordered@.take(n + 1).drop_last() =~= ordered@.take(n));
            n = n + 1;
        }»
        if let Some(v) = metadata.get(&k) {
            unique_name = str_add(str_add(unique_name, "/"), *v);
        }
    }}}
    «proof {
        assert(ordered@.take(n) =~= ordered@);
        reveal_with_fuel(parts, 5);
        let o = ordered@;
        assert(o.len() == 4);
        assert(o.drop_last().drop_last().drop_last().drop_last() =~= Seq::empty());
    }
    let ghost u1 = unique_name@;
    let ghost mut n = 0int;
    let ghost ks = ascending(metadata@.dom());»
    let mut it_1 = (&metadata).into_iter_v();
    «let ghost all = it_1@;»
    loop «
        invariant
            0 <= n <= all.len(),
            it_1@ == all.skip(n),
            ks == ascending(metadata@.dom()),
            in_order(metadata@, all),
            str_map(metadata@) == m,
            forall|k: Str| #[trigger] ignore@.contains(k) <==> special(k),
            unique_name@ =~= u1 + tail(m, ks.take(n)),
        ensures n == all.len(),
        decreases it_1@.len(),
    »{ match it_1.next() { None => { break; } Some((k, v)) => {
        «proof {
            assert(all[n].0.txt() == ks[n]);
            reveal_strlit("/");
            assert(ks.take(n + 1).drop_last() =~= ks.take(n));
            n = n + 1;
        }»
        if ignore.contains(*k) {
            continue;
        }
        unique_name = str_add(str_add(unique_name, "/"), v);
    }}}
    «proof { assert(ks.take(n) =~= ks); }»
    if let Some(v) = metadata.get("id") {
        unique_name = str_add(str_add(unique_name, "/"), v);
    }
    unique_name
}
//# end
