//@ file common/src/account_store_interface.rs
//@ enum AccountLoadingError
//@ file token_account_storage/src/inmemory_token_account_storage.rs
//@ const PARTIAL_PUBKEY_SIZE
//@ type InmemoryPubkey
//@ struct InmemoryTokenAccountStorage
//@ include partial.vspec
//@ include tokencells.vspec

// ---- specification of the store ----------------------------------------------------------------
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn lists_ok(m: Map<InmemoryPubkey, Vec<u32>>, b: Seq<Vec<u8>>) -> bool {
    &&& forall|p: InmemoryPubkey, k: int| m.contains_key(p) && 0 <= k < m[p]@.len() ==> {
        let i = #[trigger] m[p]@[k];
        i < b.len() && part(key_of(b[i as int]@)) == p && !dead(b[i as int]@)
    }
    &&& forall|p: InmemoryPubkey, k: int, l: int| m.contains_key(p) && 0 <= k < l < m[p]@.len() ==> key_of(b[#[trigger] m[p]@[k] as int]@) != key_of(b[#[trigger] m[p]@[l] as int]@)
}
pub open spec fn all_listed(m: Map<InmemoryPubkey, Vec<u32>>, b: Seq<Vec<u8>>) -> bool {
    forall|i: int| 0 <= i < b.len() && !dead(#[trigger] b[i]@) ==> is_listed(m, part(key_of(b[i]@)), i)
}
pub open spec fn is_listed(m: Map<InmemoryPubkey, Vec<u32>>, p: InmemoryPubkey, i: int) -> bool {
    m.contains_key(p) && exists|k: int| 0 <= k < m[p]@.len() && #[trigger] m[p]@[k] == i
}
impl InmemoryTokenAccountStorage {
    pub open spec fn bytes(&self, i: int) -> Seq<u8> { self.token_accounts@[i]@ }
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.token_accounts@.len() ==> enc_ok(#[trigger] self.token_accounts@[i]@)
        &&& self.token_accounts@.len() <= u32::MAX
        &&& lists_ok(self.pubkey_to_index@, self.token_accounts@)
        &&& all_listed(self.pubkey_to_index@, self.token_accounts@)
    }
    // the account of a key is the one at index i
    pub open spec fn has(&self, pk: Pubkey, i: u32) -> bool {
        i < self.token_accounts@.len() && !dead(self.bytes(i as int)) && key_of(self.bytes(i as int)) == pk
    }
}
proof fn lemma_one_index(s: InmemoryTokenAccountStorage, pk: Pubkey, i: u32, j: u32)
    requires s.wf(), s.has(pk, i), s.has(pk, j),
    ensures i == j,
{
    let l = s.pubkey_to_index@[part(pk)]@;
    assert(is_listed(s.pubkey_to_index@, part(pk), i as int));
    assert(is_listed(s.pubkey_to_index@, part(pk), j as int));
    let a = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == i as int;
    let b = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == j as int;
    if a < b { assert(l[a] != l[b]); } else if b < a { assert(l[b] != l[a]); }
}
impl InmemoryTokenAccountStorage {
    pub open spec fn cells(&self) -> Seq<Cell> { Seq::new(self.token_accounts@.len(), |i: int| Cell { live: !dead(self.bytes(i)), t: tok_of(self.bytes(i)) }) }
}
// the store seen from outside
proof fn lemma_cells(s: InmemoryTokenAccountStorage)
    requires s.wf(),
    ensures cells_wf(s.cells()), forall|pk: Pubkey, i: u32| #[trigger] at(s.cells(), pk, i) == s.has(pk, i), forall|pk: Pubkey| #[trigger] held(s.cells(), pk) == exists|i: u32| #[trigger] s.has(pk, i),
{
    assert forall|pk: Pubkey, i: u32| #[trigger] at(s.cells(), pk, i) == s.has(pk, i) by {}
    assert forall|pk: Pubkey, i: u32, j: u32| #[trigger] at(s.cells(), pk, i) && #[trigger] at(s.cells(), pk, j) implies i == j by { lemma_one_index(s, pk, i, j); }
    assert forall|pk: Pubkey| (exists|i: u32| #[trigger] s.has(pk, i)) implies #[trigger] held(s.cells(), pk) by { let i = choose|i: u32| #[trigger] s.has(pk, i); assert(at(s.cells(), pk, i)); }
    assert forall|pk: Pubkey| #[trigger] held(s.cells(), pk) implies exists|i: u32| #[trigger] s.has(pk, i) by { let i = choose|i: u32| #[trigger] at(s.cells(), pk, i); assert(s.has(pk, i)); }
}
proof fn lemma_cells_saved(o: InmemoryTokenAccountStorage, n: InmemoryTokenAccountStorage, t: TokenAccount, i: u32, fresh: bool)
    requires o.wf(), n.wf(), saved(o, n, t, i, fresh),
    ensures cells_saved(o.cells(), n.cells(), t.st(), i, fresh),
{
    lemma_cells(o); lemma_cells(n); lemma_tok_of(n.bytes(i as int), t);
    let (c, d) = (o.cells(), n.cells());
    assert forall|j: int| 0 <= j < c.len() && j != i implies #[trigger] d[j] == c[j] by { assert(n.token_accounts@[j] == o.token_accounts@[j]); }
    if fresh { assert(d =~= c.push(Cell { live: true, t: t.st() })); } else { assert(d =~= c.update(i as int, Cell { live: true, t: t.st() })); }
}
proof fn lemma_cells_removed(o: InmemoryTokenAccountStorage, n: InmemoryTokenAccountStorage, pk: Pubkey)
    requires o.wf(), n.wf(), removed(o, n, pk),
    ensures cells_removed(o.cells(), n.cells(), pk),
{
    lemma_cells(o); lemma_cells(n);
    let (c, d) = (o.cells(), n.cells());
    assert forall|i: int| 0 <= i < c.len() implies if at(c, pk, i as u32) { !(#[trigger] d[i]).live } else { d[i] == c[i] } by {
        if at(c, pk, i as u32) {
            assert(o.has(pk, i as u32)); assert(dead(n.token_accounts@[i]@));
        } else { assert(!o.has(pk, i as u32)); assert(n.token_accounts@[i] == o.token_accounts@[i]); }
    }
}
// a list of indices, seen from outside
proof fn lemma_cells_listed(o: InmemoryTokenAccountStorage, want: Set<u32>, s: Seq<u32>, v: Seq<TokenAccount>)
    requires o.wf(), picked(o, s, v), s.no_duplicates(), forall|i: u32| #[trigger] s.contains(i) <==> want.contains(i) && i < o.token_accounts@.len(),
    ensures cells_listed(o.cells(), want, s, v),
{
    let c = o.cells();
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] s[k]) < c.len() && v[k].st() == c[s[k] as int].t && v[k].is_deleted == !c[s[k] as int].live by {
        assert(pick(o, s[k], v[k])); lemma_tok_of(o.bytes(s[k] as int), v[k]);
    }
}
proof fn lemma_filter_places<T>(all: Seq<T>, p: spec_fn(T) -> bool) -> (s: Seq<int>)
    ensures s.len() == all.filter(p).len(), s.no_duplicates(), forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < all.len() && p(all[s[k]]) && all.filter(p)[k] == all[s[k]],
        forall|i: int| 0 <= i < all.len() && p(#[trigger] all[i]) ==> s.contains(i),
    decreases all.len(),
{
    reveal(Seq::filter);
    if all.len() == 0 { Seq::empty() } else {
        let t = lemma_filter_places(all.drop_last(), p);
        if p(all.last()) {
            let s = t.push(all.len() - 1);
            assert forall|i: int| 0 <= i < all.len() && p(#[trigger] all[i]) implies s.contains(i) by {
                if i == all.len() - 1 { assert(s[t.len() as int] == i); } else { assert(p(all.drop_last()[i])); assert(t.contains(i)); let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(s[k] == i); }
            }
            s
        } else {
            assert forall|i: int| 0 <= i < all.len() && p(#[trigger] all[i]) implies t.contains(i) by { assert(p(all.drop_last()[i])); }
            t
        }
    }
}
proof fn lemma_cells_encoded(o: InmemoryTokenAccountStorage, p: Program, b: Seq<Vec<u8>>)
    requires o.wf(), views(b) == views(o.token_accounts@).filter(of_program(p)),
    ensures exists|s: Seq<int>| #[trigger] cells_encoded(o.cells(), p, s, b),
{
    let all = views(o.token_accounts@);
    let s = lemma_filter_places(all, of_program(p));
    let c = o.cells();
    assert(b.len() == views(b).len());
    assert forall|k: int| 0 <= k < b.len() implies enc_ok(#[trigger] b[k]@) && !dead(b[k]@) && in_program(c, p, s[k]) && tok_of(b[k]@) == c[s[k]].t by {
        assert(views(b)[k] == b[k]@); assert(all[s[k]] == o.token_accounts@[s[k]]@); assert(enc_ok(o.token_accounts@[s[k]]@));
    }
    assert forall|i: int| #[trigger] in_program(c, p, i) implies s.contains(i) by { assert(of_program(p)(all[i])); }
    assert(cells_encoded(c, p, s, b));
}
// an account is stored under its key: where it was, or at a new index
pub open spec fn saved(o: InmemoryTokenAccountStorage, n: InmemoryTokenAccountStorage, t: TokenAccount, i: u32, fresh: bool) -> bool {
    &&& n.has(t.pubkey, i) && decodes(n.bytes(i as int), t)
    &&& fresh ==> i == o.token_accounts@.len() && n.token_accounts@.len() == i + 1 && forall|j: u32| !#[trigger] o.has(t.pubkey, j)
    &&& !fresh ==> o.has(t.pubkey, i) && n.token_accounts@.len() == o.token_accounts@.len()
    &&& forall|j: int| 0 <= j < o.token_accounts@.len() && j != i ==> #[trigger] n.token_accounts@[j] == o.token_accounts@[j]
}
pub open spec fn removed(o: InmemoryTokenAccountStorage, n: InmemoryTokenAccountStorage, pk: Pubkey) -> bool {
    &&& n.token_accounts@.len() == o.token_accounts@.len()
    &&& forall|j: u32| !#[trigger] n.has(pk, j)
    &&& forall|j: int| 0 <= j < o.token_accounts@.len() && o.has(pk, j as u32) ==> dead(#[trigger] n.token_accounts@[j]@)
    &&& forall|j: int| 0 <= j < o.token_accounts@.len() && !o.has(pk, j as u32) ==> #[trigger] n.token_accounts@[j] == o.token_accounts@[j]
}
proof fn lemma_saved(o: InmemoryTokenAccountStorage, n: InmemoryTokenAccountStorage, t: TokenAccount, i: u32, fresh: bool)
    requires
        o.wf(), o.token_accounts@.len() < u32::MAX, !t.is_deleted, i < n.token_accounts@.len(),
        enc_ok(n.bytes(i as int)), decodes(n.bytes(i as int), t),
        !fresh ==> n.pubkey_to_index@ == o.pubkey_to_index@ && n.token_accounts@ =~= o.token_accounts@.update(i as int, n.token_accounts@[i as int]) && i < o.token_accounts@.len() && o.has(t.pubkey, i),
        fresh ==> i == o.token_accounts@.len() && n.token_accounts@ =~= o.token_accounts@.push(n.token_accounts@[i as int])
            && n.pubkey_to_index@.contains_key(part(t.pubkey)) && n.pubkey_to_index@ =~= o.pubkey_to_index@.insert(part(t.pubkey), n.pubkey_to_index@[part(t.pubkey)])
            && n.pubkey_to_index@[part(t.pubkey)]@ =~= (if o.pubkey_to_index@.contains_key(part(t.pubkey)) { o.pubkey_to_index@[part(t.pubkey)]@ } else { Seq::<u32>::empty() }).push(i)
            && forall|j: u32| !#[trigger] o.has(t.pubkey, j),
    ensures n.wf(), saved(o, n, t, i, fresh),
{
    broadcast use lemma_key, lemma_part;
    let pp = part(t.pubkey);
    assert(is_key(n.bytes(i as int), t.pubkey));
    assert(n.has(t.pubkey, i));
    let (m, b) = (n.pubkey_to_index@, n.token_accounts@);
    assert forall|j: int| 0 <= j < b.len() implies enc_ok(#[trigger] b[j]@) by { if j != i { assert(b[j] == o.token_accounts@[j]); } }
    assert forall|p: InmemoryPubkey, k: int| m.contains_key(p) && 0 <= k < m[p]@.len() implies ({
        let j = #[trigger] m[p]@[k];
        &&& j < b.len() && part(key_of(b[j as int]@)) == p && !dead(b[j as int]@)
        &&& fresh && p == pp && k == m[p]@.len() - 1 || (o.pubkey_to_index@.contains_key(p) && k < o.pubkey_to_index@[p]@.len() && j == o.pubkey_to_index@[p]@[k] && key_of(b[j as int]@) == key_of(o.token_accounts@[j as int]@)
            && (j == i ==> !fresh))
    }) by {
        let j = m[p]@[k];
        if fresh && p == pp && k == m[p]@.len() - 1 {
            assert(j == i);
        } else {
            assert(j == o.pubkey_to_index@[p]@[k]);
            if j != i { assert(b[j as int] == o.token_accounts@[j as int]); }
        }
    }
    assert forall|p: InmemoryPubkey, k: int, l: int| m.contains_key(p) && 0 <= k < l < m[p]@.len() implies key_of(b[#[trigger] m[p]@[k] as int]@) != key_of(b[#[trigger] m[p]@[l] as int]@) by {
        let (x, y) = (m[p]@[k], m[p]@[l]);
        if fresh && p == pp && l == m[p]@.len() - 1 {
            let ol = o.pubkey_to_index@[p]@;
            assert(x == ol[k]);
            assert(o.has(key_of(o.bytes(x as int)), x));
        } else {
            assert(x == o.pubkey_to_index@[p]@[k] && y == o.pubkey_to_index@[p]@[l]);
        }
    }
    assert forall|j: int| 0 <= j < b.len() && !dead(#[trigger] b[j]@) implies is_listed(m, part(key_of(b[j]@)), j) by {
        if fresh && j == i {
            assert(m[pp]@[m[pp]@.len() - 1] == j);
        } else {
            let q = part(key_of(b[j]@));
            if j != i { assert(b[j] == o.token_accounts@[j]); }
            assert(is_listed(o.pubkey_to_index@, q, j));
            let k = choose|k: int| 0 <= k < o.pubkey_to_index@[q]@.len() && #[trigger] o.pubkey_to_index@[q]@[k] == j;
            assert(m[q]@[k] == j);
        }
    }
}
proof fn lemma_removed(o: InmemoryTokenAccountStorage, n: InmemoryTokenAccountStorage, pk: Pubkey, pos: int)
    requires
        o.wf(), o.pubkey_to_index@.contains_key(part(pk)), 0 <= pos < o.pubkey_to_index@[part(pk)]@.len(),
        ({
            let i = o.pubkey_to_index@[part(pk)]@[pos] as int;
            let l = o.pubkey_to_index@[part(pk)]@.remove(pos);
            &&& key_of(o.bytes(i)) == pk
            &&& n.token_accounts@ =~= o.token_accounts@.update(i, n.token_accounts@[i])
            &&& enc_ok(n.bytes(i)) && dead(n.bytes(i))
            &&& if l.len() == 0 { n.pubkey_to_index@ =~= o.pubkey_to_index@.remove(part(pk)) } else {
                n.pubkey_to_index@.contains_key(part(pk)) && n.pubkey_to_index@[part(pk)]@ =~= l && n.pubkey_to_index@ =~= o.pubkey_to_index@.insert(part(pk), n.pubkey_to_index@[part(pk)])
            }
        }),
    ensures n.wf(), removed(o, n, pk),
{
    let pp = part(pk);
    let ol = o.pubkey_to_index@[pp]@;
    let i = ol[pos] as int;
    let (m, b) = (n.pubkey_to_index@, n.token_accounts@);
    assert(i < o.token_accounts@.len());
    assert(o.has(pk, i as u32));
    assert forall|j: int| 0 <= j < b.len() && j != i implies #[trigger] b[j] == o.token_accounts@[j] by {}
    assert forall|j: int| 0 <= j < b.len() implies enc_ok(#[trigger] b[j]@) by { if j != i { assert(b[j] == o.token_accounts@[j]); } }
    // the list of the partial key without the removed index
    let back = |k: int| if k < pos { k } else { k + 1 };
    assert forall|p: InmemoryPubkey, k: int| m.contains_key(p) && 0 <= k < m[p]@.len() implies ({
        let j = #[trigger] m[p]@[k];
        &&& j != i && j < b.len() && b[j as int] == o.token_accounts@[j as int]
        &&& o.pubkey_to_index@.contains_key(p)
        &&& j == o.pubkey_to_index@[p]@[if p == pp { back(k) } else { k }]
        &&& part(key_of(b[j as int]@)) == p && !dead(b[j as int]@)
    }) by {
        let j = m[p]@[k];
        let kk = if p == pp { back(k) } else { k };
        assert(j == o.pubkey_to_index@[p]@[kk]);
        assert(part(key_of(o.token_accounts@[j as int]@)) == p);
        if p == pp {
            if kk < pos { assert(key_of(o.token_accounts@[ol[kk] as int]@) != key_of(o.token_accounts@[ol[pos] as int]@)); }
            else { assert(key_of(o.token_accounts@[ol[pos] as int]@) != key_of(o.token_accounts@[ol[kk] as int]@)); }
        }
    }
    assert forall|p: InmemoryPubkey, k: int, l: int| m.contains_key(p) && 0 <= k < l < m[p]@.len() implies key_of(b[#[trigger] m[p]@[k] as int]@) != key_of(b[#[trigger] m[p]@[l] as int]@) by {
        let op = o.pubkey_to_index@[p]@;
        let (kk, ll) = if p == pp { (back(k), back(l)) } else { (k, l) };
        assert(m[p]@[k] == op[kk] && m[p]@[l] == op[ll] && kk < ll);
    }
    assert forall|j: int| 0 <= j < b.len() && !dead(#[trigger] b[j]@) implies is_listed(m, part(key_of(b[j]@)), j) by {
        assert(j != i);
        let q = part(key_of(b[j]@));
        assert(is_listed(o.pubkey_to_index@, q, j));
        let k = choose|k: int| 0 <= k < o.pubkey_to_index@[q]@.len() && #[trigger] o.pubkey_to_index@[q]@[k] == j;
        if q == pp {
            assert(k != pos);
            let l = ol.remove(pos);
            let nk = if k < pos { k } else { k - 1 };
            assert(l[nk] == j);
            assert(m[q]@[nk] == j);
        } else {
            assert(m[q]@[k] == j);
        }
    }
    assert forall|j: u32| !#[trigger] n.has(pk, j) by {
        if n.has(pk, j) {
            assert(b[j as int] == o.token_accounts@[j as int]);
            assert(o.has(pk, j));
            lemma_one_index(o, pk, i as u32, j);
        }
    }
}
pub open spec fn among<'a>(s: Seq<&'a u32>, n: int, x: u32) -> bool { exists|j: int| 0 <= j < n && *(#[trigger] s[j]) == x }
// what a list of indices stands for
pub open spec fn picked(s: InmemoryTokenAccountStorage, idx: Seq<u32>, v: Seq<TokenAccount>) -> bool {
    &&& idx.len() == v.len()
    &&& forall|k: int| 0 <= k < v.len() ==> pick(s, #[trigger] idx[k], v[k])
}
pub open spec fn pick(s: InmemoryTokenAccountStorage, i: u32, t: TokenAccount) -> bool { i < s.token_accounts@.len() && decodes(s.bytes(i as int), t) }
#[verifier::opaque]
pub open spec fn selected<'a>(s: InmemoryTokenAccountStorage, items: Seq<&'a u32>, n: int, sel: Seq<u32>, v: Seq<TokenAccount>) -> bool {
    &&& picked(s, sel, v)
    &&& sel.no_duplicates()
    &&& forall|k: int| 0 <= k < sel.len() ==> among(items, n, #[trigger] sel[k])
    &&& forall|j: int| 0 <= j < n && *(#[trigger] items[j]) < s.token_accounts@.len() ==> sel.contains(*items[j])
}
proof fn lemma_select<'a>(s: InmemoryTokenAccountStorage, items: Seq<&'a u32>, n: int, sel: Seq<u32>, v: Seq<TokenAccount>, t: TokenAccount, set: Set<u32>)
    requires
        selected(s, items, n, sel, v), 0 <= n < items.len(), set_items_refs(items, set),
        *items[n] < s.token_accounts@.len(), decodes(s.bytes(*items[n] as int), t),
    ensures selected(s, items, n + 1, sel.push(*items[n]), v.push(t)),
{
    reveal(selected);
    let i = *items[n];
    let nsel = sel.push(i);
    let nv = v.push(t);
    assert forall|k: int| 0 <= k < nsel.len() implies among(items, n + 1, #[trigger] nsel[k]) && (k < sel.len() ==> nsel[k] != i) by {
        if k < sel.len() {
            assert(among(items, n, sel[k]));
            let j = choose|j: int| 0 <= j < n && *(#[trigger] items[j]) == sel[k];
            assert(*items[j] == nsel[k]);
            assert(items[j] != items[n]);
        } else {
            assert(*items[n] == nsel[k]);
        }
    }
    assert forall|a: int, b: int| 0 <= a < nsel.len() && 0 <= b < nsel.len() && a != b implies nsel[a] != nsel[b] by {
        if a < sel.len() && b < sel.len() { assert(sel[a] != sel[b]); }
    }
    assert forall|j: int| 0 <= j < n + 1 && *(#[trigger] items[j]) < s.token_accounts@.len() implies nsel.contains(*items[j]) by {
        if j < n { let k = choose|k: int| 0 <= k < sel.len() && sel[k] == *items[j]; assert(sel.contains(*items[j])); assert(nsel[k] == *items[j]); }
        else { assert(nsel[sel.len() as int] == i); }
    }
    assert forall|k: int| 0 <= k < nv.len() implies pick(s, #[trigger] nsel[k], nv[k]) by {
        if k < v.len() { assert(pick(s, sel[k], v[k])); assert(nv[k] == v[k]); assert(nsel[k] == sel[k]); }
    }
    assert(nsel.no_duplicates());
}
proof fn lemma_skip<'a>(s: InmemoryTokenAccountStorage, items: Seq<&'a u32>, n: int, sel: Seq<u32>, v: Seq<TokenAccount>)
    requires selected(s, items, n, sel, v), 0 <= n < items.len(), *items[n] >= s.token_accounts@.len(),
    ensures selected(s, items, n + 1, sel, v),
{
    reveal(selected);
    assert forall|k: int| 0 <= k < sel.len() implies among(items, n + 1, #[trigger] sel[k]) by {
        assert(among(items, n, sel[k]));
        let j = choose|j: int| 0 <= j < n && *(#[trigger] items[j]) == sel[k];
        assert(*items[j] == sel[k]);
    }
}
proof fn lemma_selected<'a>(s: InmemoryTokenAccountStorage, items: Seq<&'a u32>, sel: Seq<u32>, v: Seq<TokenAccount>, set: Set<u32>)
    requires selected(s, items, items.len() as int, sel, v), set_items_refs(items, set),
    ensures
        picked(s, sel, v), sel.no_duplicates(),
        forall|i: u32| #[trigger] sel.contains(i) <==> set.contains(i) && i < s.token_accounts@.len(),
{
    reveal(selected);
    assert forall|i: u32| #[trigger] sel.contains(i) <==> set.contains(i) && i < s.token_accounts@.len() by {
        if sel.contains(i) {
            let k = choose|k: int| 0 <= k < sel.len() && sel[k] == i;
            assert(among(items, items.len() as int, sel[k]));
            let j = choose|j: int| 0 <= j < items.len() && *(#[trigger] items[j]) == sel[k];
            assert(set.contains(*items[j]));
            assert(pick(s, sel[k], v[k]));
        }
        if set.contains(i) && i < s.token_accounts@.len() {
            let j = choose|j: int| 0 <= j < items.len() && *(#[trigger] items[j]) == i;
            assert(*items[j] == i);
        }
    }
}
proof fn lemma_program_bits()
    ensures
        forall|x: u8| (#[trigger] (x & 3) == 0) == (!bit(x, 0) && !bit(x, 1)) && (x & 3 == 1) == (bit(x, 0) && !bit(x, 1)),
{
    reveal(bit);
    assert forall|x: u8| (#[trigger] (x & 3) == 0) == (!bit(x, 0) && !bit(x, 1)) && (x & 3 == 1) == (bit(x, 0) && !bit(x, 1)) by {
        assert((x & 3 == 0) == (!((x >> 0) & 1 == 1) && !((x >> 1) & 1 == 1)) && (x & 3 == 1) == ((x >> 0) & 1 == 1 && !((x >> 1) & 1 == 1))) by (bit_vector);
    }
}
pub open spec fn of_program(p: Program) -> spec_fn(Seq<u8>) -> bool { |v: Seq<u8>| program_of(v) == p && !dead(v) }
pub open spec fn views(b: Seq<Vec<u8>>) -> Seq<Seq<u8>> { b.map_values(|v: Vec<u8>| v@) }

impl InmemoryTokenAccountStorage {
//@ file token_account_storage/src/inmemory_token_account_storage.rs
//@ fn TokenAccountStorageInterface for InmemoryTokenAccountStorage::contains ret=r
    requires self.wf(),
    ensures match r { Some(i) => self.has(*pubkey, i), None => forall|i: u32| !#[trigger] self.has(*pubkey, i) },
        cells_contain(self.cells(), *pubkey, r),
//@ exit
    proof { lemma_cells(*self); }
//@ start
    broadcast use lemma_key, lemma_part;
//@ loop 0
    invariant
        self.wf(), lk@ == self.token_accounts@, self.pubkey_to_index@.contains_key(part(*pubkey)),
        __it0_.items() == refs(self.pubkey_to_index@[part(*pubkey)]@),
        forall|k: int| 0 <= k < __it0_.pos() ==> key_of(self.bytes(#[trigger] self.pubkey_to_index@[part(*pubkey)]@[k] as int)) != *pubkey,
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof { if __it0_.pos() < __it0_.items().len() { let i = self.pubkey_to_index@[part(*pubkey)]@[__it0_.pos() as int]; assert(enc_ok(self.token_accounts@[i as int]@)); assert(self.has(key_of(self.bytes(i as int)), i)); } }
//@ end
//@ fn TokenAccountStorageInterface for InmemoryTokenAccountStorage::get_by_pubkey ret=r
    requires self.wf(),
    ensures match r { Some(t) => exists|i: u32| #[trigger] self.has(*pubkey, i) && decodes(self.bytes(i as int), t), None => forall|i: u32| !#[trigger] self.has(*pubkey, i) },
        cells_get(self.cells(), *pubkey, r),
//@ exit
    proof {
        lemma_cells(*self);
        if __ret is Some {
            let i = choose|i: u32| #[trigger] self.has(*pubkey, i) && decodes(self.bytes(i as int), __ret->0);
            lemma_tok_of(self.bytes(i as int), __ret->0);
            assert(at(self.cells(), *pubkey, i));
        }
    }
//@ start
    broadcast use lemma_key, lemma_part;
//@ loop 0
    invariant
        self.wf(), lk@ == self.token_accounts@, self.pubkey_to_index@.contains_key(part(*pubkey)),
        __it0_.items() == refs(self.pubkey_to_index@[part(*pubkey)]@),
        forall|k: int| 0 <= k < __it0_.pos() ==> key_of(self.bytes(#[trigger] self.pubkey_to_index@[part(*pubkey)]@[k] as int)) != *pubkey,
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof { if __it0_.pos() < __it0_.items().len() { let i = self.pubkey_to_index@[part(*pubkey)]@[__it0_.pos() as int]; assert(enc_ok(self.token_accounts@[i as int]@)); assert(self.has(key_of(self.bytes(i as int)), i)); } }
//@ end
//@ fn TokenAccountStorageInterface for InmemoryTokenAccountStorage::save_or_update ret=r self=mut attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants attr=verifier::rlimit(100)
    requires old(self).wf(), token_account.wf(), !token_account.is_deleted, old(self).token_accounts@.len() < u32::MAX,
    ensures
        final(self).wf(), saved(*old(self), *final(self), token_account, r.0, r.1),
        cells_saved(old(self).cells(), final(self).cells(), token_account.st(), r.0, r.1),
//@ start
    broadcast use lemma_key, lemma_part;
    let ghost pk = token_account.pubkey;
    let ghost m0 = self.pubkey_to_index@;
    let ghost b0 = self.token_accounts@;
//@ loop 0
    invariant
        old(self).wf(), m0 == old(self).pubkey_to_index@, b0 == old(self).token_accounts@,
        token_account.wf(), !token_account.is_deleted, b0.len() < u32::MAX, pk == token_account.pubkey, write_lk@ == b0, m0.contains_key(part(pk)),
        __it0_.items() == refs(m0[part(pk)]@),
        forall|k: int| 0 <= k < __it0_.pos() ==> key_of(b0[#[trigger] m0[part(pk)]@[k] as int]@) != pk,
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof { if __it0_.pos() < __it0_.items().len() { let i = m0[part(pk)]@[__it0_.pos() as int]; assert(enc_ok(b0[i as int]@)); assert(old(self).has(key_of(b0[i as int]@), i)); assert(b0.update(i as int, b0[i as int]) =~= b0); } }
//@ exit
    proof {
        if __ret.1 {
            assert forall|j: u32| !#[trigger] old(self).has(pk, j) by {
                if old(self).has(pk, j) {
                    assert(is_listed(m0, part(pk), j as int));
                    let k = choose|k: int| 0 <= k < m0[part(pk)]@.len() && #[trigger] m0[part(pk)]@[k] == j as int;
                    assert(key_of(b0[m0[part(pk)]@[k] as int]@) != pk);
                }
            }
        }
        lemma_saved(*old(self), *self, token_account, __ret.0, __ret.1);
        lemma_cells_saved(*old(self), *self, token_account, __ret.0, __ret.1);
    }
//@ end
//@ fn TokenAccountStorageInterface for InmemoryTokenAccountStorage::delete self=mut
    requires old(self).wf(),
    ensures
        final(self).wf(), removed(*old(self), *final(self), *pubkey),
        cells_removed(old(self).cells(), final(self).cells(), *pubkey),
//@ start
    broadcast use lemma_key, lemma_part;
    let ghost pk = *pubkey;
    let ghost m0 = self.pubkey_to_index@;
    let ghost b0 = self.token_accounts@;
    let ghost mut at: int = -1;
//@ loop 0
    invariant_except_break
        __acc0_ is None,
    invariant
        old(self).wf(), m0 == old(self).pubkey_to_index@, b0 == old(self).token_accounts@, pk == *pubkey, self.pubkey_to_index@ == m0,
        write_lk@ == b0, m0.contains_key(part(pk)), at == -1,
        __it0_.items().len() == m0[part(pk)]@.len(), __it0_.items().len() <= usize::MAX,
        forall|k: int| 0 <= k < __it0_.items().len() ==> (#[trigger] __it0_.items()[k]).0 == k && *(__it0_.items()[k].1) == m0[part(pk)]@[k],
        __acc0_ is None ==> forall|k: int| 0 <= k < __it0_.pos() ==> key_of(b0[#[trigger] m0[part(pk)]@[k] as int]@) != pk,
    ensures
        __acc0_ is None ==> __it0_.pos() == __it0_.items().len(),
        __acc0_ is Some ==> __acc0_->0 < m0[part(pk)]@.len() && key_of(b0[m0[part(pk)]@[__acc0_->0 as int] as int]@) == pk,
//@ loopstart 0
    proof { if __it0_.pos() < __it0_.items().len() { let i = m0[part(pk)]@[__it0_.pos() as int]; assert(enc_ok(b0[i as int]@)); assert(old(self).has(key_of(b0[i as int]@), i)); } }
//@ loopafter 0
    proof { if __acc0_ is Some { at = __acc0_->0 as int; } }
//@ exit
    proof {
        if at >= 0 {
            lemma_removed(*old(self), *self, pk, at);
        } else {
            assert forall|j: u32| !#[trigger] old(self).has(pk, j) by {
                if old(self).has(pk, j) {
                    assert(is_listed(m0, part(pk), j as int));
                    let k = choose|k: int| 0 <= k < m0[part(pk)]@.len() && #[trigger] m0[part(pk)]@[k] == j as int;
                    assert(key_of(b0[m0[part(pk)]@[k] as int]@) != pk);
                }
            }
        }
        lemma_cells_removed(*old(self), *self, pk);
    }
//@ end
//@ fn TokenAccountStorageInterface for InmemoryTokenAccountStorage::get_by_index ret=r
    requires self.wf(),
    ensures r is Ok, exists|s: Seq<u32>| #[trigger] picked(*self, s, r->Ok_0@) && s.no_duplicates()
        && forall|i: u32| #[trigger] s.contains(i) <==> indexes@.contains(i) && i < self.token_accounts@.len(),
        exists|s: Seq<u32>| #[trigger] cells_listed(self.cells(), indexes@, s, r->Ok_0@),
//@ start
    broadcast use vx_it::axiom_viter_pos;
    let ghost mut sel = Seq::<u32>::empty();
    proof { reveal(selected); }
//@ loop 0
    invariant
        self.wf(), lk@ == self.token_accounts@, set_items_refs(__it0_.items(), indexes@),
        selected(*self, __it0_.items(), __it0_.pos() as int, sel, __acc0_@), __it0_.pos() <= __it0_.items().len(),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    broadcast use vx_it::axiom_viter_pos;
    let ghost __v0 = __acc0_@;
    let ghost __n = __it0_.pos() as int;
    proof {
        if __n < __it0_.items().len() && *__it0_.items()[__n] < self.token_accounts@.len() {
            assert(enc_ok(self.token_accounts@[*__it0_.items()[__n] as int]@));
        }
    }
//@ loopend 0
    proof {
        let i = *__it0_.items()[__n];
        if i < self.token_accounts@.len() {
            lemma_select(*self, __it0_.items(), __n, sel, __v0, __acc0_@.last(), indexes@);
            assert(__acc0_@ =~= __v0.push(__acc0_@.last()));
            sel = sel.push(i);
        } else {
            lemma_skip(*self, __it0_.items(), __n, sel, __v0);
            assert(__acc0_@ == __v0);
        }
    }
//@ loopafter 0
    proof { lemma_selected(*self, __it0_.items(), sel, __acc0_@, indexes@); }
//@ exit
    proof { assert(picked(*self, sel, __ret->Ok_0@)); lemma_cells_listed(*self, indexes@, sel, __ret->Ok_0@); }
//@ end
//@ fn TokenAccountStorageInterface for InmemoryTokenAccountStorage::create_snapshot ret=r
    requires self.wf(),
    ensures r is Ok, views(r->Ok_0@) == views(self.token_accounts@).filter(of_program(program)),
        exists|s: Seq<int>| #[trigger] cells_encoded(self.cells(), program, s, r->Ok_0@),
//@ exit
    proof { lemma_cells_encoded(*self, program, __ret->Ok_0@); }
//@ start
    proof { lemma_bits(); lemma_program_bits(); }
    let ghost all = views(self.token_accounts@);
//@ loop 0
    invariant
        self.wf(), lk@ == self.token_accounts@, all == views(self.token_accounts@), __it0_.items().len() == all.len(), 0 <= __it0_.pos() <= all.len(),
        forall|i: int| 0 <= i < all.len() ==> *(#[trigger] __it0_.items()[i]) == self.token_accounts@[i],
        program_bit == (if program == Program::TokenProgram { 0u8 } else { 1u8 }),
        views(__acc0_@) == all.take(__it0_.pos() as int).filter(of_program(program)),
    ensures __it0_.pos() == __it0_.items().len(),
//@ loopstart 0
    proof {
        lemma_bits(); lemma_program_bits();
        let k = __it0_.pos() as int;
        if k < all.len() {
            assert(enc_ok(self.token_accounts@[k]@));
            assert(all[k] == self.token_accounts@[k]@);
            assert(all.take(k + 1).drop_last() =~= all.take(k));
            reveal(Seq::filter);
            assert forall|v: Vec<u8>| #[trigger] views(__acc0_@.push(v)) == views(__acc0_@).push(v@) by { assert(views(__acc0_@.push(v)) =~= views(__acc0_@).push(v@)); }
        }
    }
//@ loopafter 0
    assert(all.take(all.len() as int) =~= all);
//@ end
}
