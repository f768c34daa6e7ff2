
// ------------------------------------------------------------- C12 (spec)
pub open spec fn escape_char(c: char) -> Str {
    if c == '\\' { seq!['\\', '\\'] } else if c == '"' { seq!['\\', '"'] } else if c == '\n' { seq!['\\', 'n'] } else { seq![c] }
}
pub open spec fn escape(s: Str) -> Str decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { escape_char(s[0]) + escape(s.drop_first()) }
}
pub open spec fn label(e: (Str, Str)) -> Str { e.0 + "=\""@ + escape(e.1) + "\""@ }
pub open spec fn prometheus(name: Str, e: Seq<(Str, Str)>) -> Str {
    if e.len() == 0 { name } else { name + "{"@ + joined(e.map_values(|x: (Str, Str)| label(x)), ", "@) + "}"@ }
}
/// What a reader of the text format does after an opening quote: the value up
/// to the closing quote, and what follows it.
pub open spec fn read_value(t: Str) -> (Str, Str) decreases t.len() {
    if t.len() == 0 { (Seq::empty(), Seq::empty()) }
    else if t[0] == '"' { (Seq::empty(), t.skip(1)) }
    else if t[0] == '\\' && t.len() >= 2 {
        let r = read_value(t.skip(2));
        (seq![if t[1] == 'n' { '\n' } else { t[1] }] + r.0, r.1)
    } else { let r = read_value(t.skip(1)); (seq![t[0]] + r.0, r.1) }
}

// ------------------------------------------------------------ C12 (proofs)
/// Each value can be recovered from the text.
pub proof fn escaped_values_read_back(v: Str, rest: Str)
    ensures read_value(escape(v) + seq!['"'] + rest) == (v, rest),
    decreases v.len(),
{
    reveal_with_fuel(read_value, 2);
    let t = escape(v) + seq!['"'] + rest;
    if v.len() == 0 {
        assert(t[0] == '"');
        assert(t.skip(1) =~= rest);
        assert(v =~= Seq::empty());
    } else {
        let u = escape(v.drop_first()) + seq!['"'] + rest;
        escaped_values_read_back(v.drop_first(), rest);
        assert(t =~= escape_char(v[0]) + u);
        assert(v =~= seq![v[0]] + v.drop_first());
        if v[0] == '\\' || v[0] == '"' || v[0] == '\n' {
            assert(t[0] == '\\');
            assert(t.skip(2) =~= u);
        } else {
            assert(t[0] == v[0]);
            assert(t.skip(1) =~= u);
        }
    }
}
pub proof fn lemma_escape_push(s: Str, c: char)
    ensures escape(s.push(c)) == escape(s) + escape_char(c),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s.push(c)[0] == c);
        assert(s.push(c).drop_first() =~= Seq::empty());
        assert(escape(s.push(c).drop_first()) =~= Seq::empty());
        assert(escape_char(c) + Seq::empty() =~= escape_char(c));
        assert(escape(s) + escape_char(c) =~= escape_char(c));
    } else {
        lemma_escape_push(s.drop_first(), c);
        assert(s.push(c).drop_first() =~= s.drop_first().push(c));
        assert(escape_char(s[0]) + (escape(s.drop_first()) + escape_char(c)) =~= (escape_char(s[0]) + escape(s.drop_first())) + escape_char(c));
    }
}
pub proof fn lemma_joined_nonempty(s: Seq<Str>, sep: Str)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0,
    ensures joined(s, sep).len() > 0,
{
    if s.len() > 1 { assert(s.last().len() > 0); }
}

// ------------------------------------------------------------- C12 (code)
//# item metriken-core enum Format
pub enum Format { Simple, Prometheus }
//# end

//# item metriken-core fn escape_label_value
fn escape_label_value(value: &str) -> ‹String›«(r: String)
    ensures r@ == escape(value@),
»{
    let mut escaped = String::with_capacity(value.len());
    «let ghost mut n = 0int;
    proof { assert(value@.take(0) =~= Seq::empty()); reveal_strlit("\\\\"); reveal_strlit("\\\""); reveal_strlit("\\n"); }»
    let mut it_0 = (value.chars_v()).into_iter_v();
    loop «
        invariant
            0 <= n <= value@.len(),
            it_0@ == value@.skip(n),
            escaped@ =~= escape(value@.take(n)),
        ensures n == value@.len(),
        decreases it_0@.len(),
    »{ match it_0.next() { None => { break; } Some(c) => {
        «proof {
            assert(value@.take(n + 1) =~= value@.take(n).push(c));
            lemma_escape_push(value@.take(n), c);
            reveal_strlit("\\\\"); reveal_strlit("\\\""); reveal_strlit("\\n");
            n = n + 1;
        }»
        match c {
            '\\' => escaped.push_str("\\\\"),
            '"' => escaped.push_str("\\\""),
            '\n' => escaped.push_str("\\n"),
            _ => escaped.push(c)
        }
        «proof { assert(escaped@ =~= escape(value@.take(n))); }»
    }}}
    «proof { assert(value@.take(n) =~= value@); }»
    escaped
}
//# end

//# item metriken-core fn default_formatter
pub fn default_formatter(metric: &MetricEntry, format: Format) -> ‹String›«(r: String)
    ensures
        format is Simple ==> r@ == metric.name_of(),
        format is Prometheus ==> exists|e: Seq<(Str, Str)>| lists_text(metric.metadata_of(), e) && r@ == prometheus(metric.name_of(), e),
»{
    «broadcast use empty_add;»
    match format {
        Format::Prometheus => {
            let metadata: Vec<String> = metric
                .metadata()
                .iter_v()
                .map(|p_0 «: (&str, &str)»| «-> (r: String) ensures r@ == label((p_0.0@, p_0.1@))» {
                    let (key, value) = p_0;
                    fmt_v(fmt_v(fmt_v(fmt_v(String::new(), &(key)), &("=\"")), &(escape_label_value(value))), &("\""))
                })
                .collect();
            «proof {
                let s = choose|s: Seq<(&str, &str)>| lists_text(metric.metadata_of(), texts(s)) && s.len() == metadata@.len()
                    && forall|i: int| 0 <= i < s.len() ==> (#[trigger] metadata@[i])@ == label((s[i].0@, s[i].1@));
                let e = texts(s);
                assert(metadata.pieces() =~= e.map_values(|x: (Str, Str)| label(x)));
                reveal_strlit("=\"");
                if e.len() > 0 { lemma_joined_nonempty(metadata.pieces(), ", "@); }
                assert(lists_text(metric.metadata_of(), e));
            }»
            let metadata = metadata.join_v(", ");
            if metadata.is_empty() {
                metric.name().to_string_v()
            } else {
                fmt_v(fmt_v(fmt_v(fmt_v(String::new(), &(metric.name())), &("{")), &(metadata)), &("}"))
            }
        }
        _ => metric.name().to_string_v()
    }
}
//# end
