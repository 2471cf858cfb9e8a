# What each property's check explores. Every entry: harness file, entry function, parameters, tier, bounds.
LEVEL = "model_checking"
ASSUMPTIONS = [
    "random source (std::random_device, std::mt19937) replaced by an arbitrary sequence chosen by the harness (lib/stub/random)",
    "memory allocation never fails; addresses of distinct allocations grow (or, where stated, shrink) in allocation order",
    "output streams have empty bodies; std::string/unordered_map internals of libstdc++.so replaced by lib/runtime.cpp in the bitcode (the native replay uses the real ones)",
    "LLVM 18 -O1 bitcode of the sources stands for the program; floating point is evaluated concretely",
]
EXTRA = {}
NA = {}
PLAN = {}
def run(prop, h, entry, bounds, **kw):
    PLAN.setdefault(prop, []).append(dict(h=h, entry=entry, bounds=bounds, **kw))
run("C11", "traverse.cpp", "traverse_all", "all functions of 2 variables 1..4 apart", params={"n": 2, "stride": 4}, reach=["end", "inner"], name="traverse_stride")
run("C11", "traverse.cpp", "traverse_all", "all functions of 3 variables and their sub-diagrams", params={"n": 3}, reach=["end", "inner"])
for canon, P in ((0, "C01"), (1, "C02")):
    c = {"canon": canon}
    for lay in (0, 1, 2, 3, 4, 5):
        run(P, "conn.cpp", "conn_pair", "all pairs of functions of 2 variables, 3 connectives, 4 call forms, variable layout %d" % lay, params=dict(c, lay=lay), name="conn_pair_lay%d" % lay)
    run(P, "conn.cpp", "conn_pair", "3-variable by 2-variable functions", params=dict(c, nf=3, ng=2, form=0), name="conn_pair_3x2")
    run(P, "conn.cpp", "conn_pair", "2-variable by 3-variable functions, operands over shifted variables", params=dict(c, nf=2, ng=3, form=0, lay=4), name="conn_pair_2x3s")
    run(P, "conn.cpp", "conn_pair", "all equal hash keys", params=dict(c, keys=1), name="conn_pair_eqkeys")
    run(P, "conn.cpp", "conn_neg", "all functions of 3 variables", params=dict(c, n=3))
    run(P, "conn.cpp", "conn_ite", "all triples of functions of 2 variables", params=dict(c))
    run(P, "conn.cpp", "conn_ite", "condition below the branches", params=dict(c, nf=1, ng=2, nh=2, lf=1), name="conn_ite_low")
    run(P, "conn.cpp", "conn_range", "2..9 operands in range form, 2..8 in argument form, one of them arbitrary", params=dict(c))
    run(P, "conn.cpp", "conn_many", "2..4 operands, 6 kinds each", params=dict(c, K=4))
run("C01", "conn.cpp", "eval_all", "all functions and assignments of 3 variables")
run("C03", "unique.cpp", "uf_few", "3 requests, branches arbitrary out of 4 nodes, arbitrary 22-bit keys", params=dict(K=3, c=4))
run("C03", "unique.cpp", "uf_few", "4 requests out of 4 nodes with wrapping keys", params=dict(K=4, c=4, keys=13), name="uf_few_wrap")
run("C03", "unique.cpp", "uf_vars", "4 requests over 3 variables", params=dict(K=3))
run("C03", "unique.cpp", "uf_fill", "72 nodes in one table, keys 0 or 63 each (growth 64->128->256)", params=dict(c=9, keys=14))
run("C03", "unique.cpp", "uf_fill", "56 nodes, keys from {0,1,62,63}", params=dict(c=8, keys=13), name="uf_fill_wrap")
run("C03", "unique.cpp", "uf_many", "5000 nodes of one variable", params=dict(c=72))
for P, k in (("C02", 5), ("C03", 5), ("C19", 5)): run(P, "unique.cpp", "uf_huge", "144020 nodes of one variable (tables of 64..524288 slots)", params=dict(keys=k), steps=2000000000)
run("C03", "unique.cpp", "uf_huge", "530712 nodes of one variable (tables up to the maximal size)", params=dict(c=729), steps=4000000000, name="uf_max", tier="thorough")
for P, w in (("C05", 1), ("C06", 2)):
    run(P, "gc.cpp", "gc_table", "3 parents over 4 children, arbitrary 22-bit keys, arbitrary live subset, 2 rounds", params=dict(what=w, K=3, c=4), name="gc_table_k3")
    run(P, "gc.cpp", "gc_table", "6 parents over 4 children, keys wrap around the table end, arbitrary live subset", params=dict(what=w, K=6, c=4, keys=13), name="gc_table_wrap")
    run(P, "gc.cpp", "gc_table", "7 parents with equal keys, arbitrary live subsets, 2 rounds", params=dict(what=w, K=7, c=5, keys=1), name="gc_table_eq")
    run(P, "gc.cpp", "gc_large", "90 nodes, table growth and shrinking, periodic live patterns", params=dict(what=w, c=10, keys=14))
    run(P, "gc.cpp", "gc_funcs", "all pairs of 2-variable functions, 4 operations, any subset kept", params=dict(what=w))
run("C04", "hist.cpp", "hist", "2 arbitrary operations (connectives, negation, drop+collect), pool of 2-variable functions", params=dict(n=2, K=2, obs=19, kinds=8))
run("C04", "hist.cpp", "hist", "equal hash keys (every computed-table slot collides)", params=dict(n=2, K=2, obs=19, kinds=8, keys=1), name="hist_eqkeys")
run("C04", "hist.cpp", "hist_pair", "all pairs of 2-variable functions, 7x6 operations in a row")
run("C04", "hist.cpp", "hist_pair", "same with equal keys", params=dict(keys=1), name="hist_pair_eq")
run("C04", "hist.cpp", "memo_gc", "an operation, any operands dropped and collected, arbitrary BDDs in the freed storage, the operation again")
run("C05", "hist.cpp", "memo_gc", "same, new BDDs over the first operand's variables", params=dict(h=1), name="memo_gc_h")
run("C04", "hist.cpp", "memo_ops", "4 insertions, arbitrary 22-bit keys", params=dict(K=3, c=2))
run("C02", "hist.cpp", "hist", "2 arbitrary operations, any order", params=dict(n=2, K=2, obs=2, kinds=8), name="hist_canon")
run("C05", "hist.cpp", "hist", "3 operations incl. collection", params=dict(n=2, K=3, obs=19, kinds=7, maxpool=3), name="hist_gc")
run("C06", "hist.cpp", "hist", "3 operations incl. collection", params=dict(n=2, K=3, obs=4, kinds=7, maxpool=3), name="hist_gc")
run("C07", "hist.cpp", "hist", "2 arbitrary operations", params=dict(n=2, K=2, obs=8, kinds=8), name="hist_refs")
run("C07", "refs.cpp", "handles", "3 arbitrary handle operations", params=dict(K=3))
run("C07", "refs.cpp", "ops_refs", "all pairs of 2-variable functions, 14 operations")
run("C08", "card.cpp", "card_lits", "1..5 literals of any sign, every bound", params=dict(N=5))
run("C08", "card.cpp", "card_funcs", "1..3 arbitrary functions of 2 variables", params=dict(N=2))
run("C08", "card.cpp", "card_funcs", "1..5 arbitrary functions of 1 variable", params=dict(N=5, nv=1), name="card_funcs1")
run("C08", "card.cpp", "card_large", "6..9 literals", params=dict(N=9))
run("C09", "limited.cpp", "limited", "all pairs of 2-variable functions, every 64-bit limit", reach=["end", "refused", "done"])
run("C09", "limited.cpp", "limited", "2-variable functions over overlapping variables", params=dict(shift=1, pre=0), reach=["end", "refused", "done"], name="limited_shift")
run("C10", "rebase.cpp", "rebase_all", "all functions of 2 variables, gaps 0..2, 3 argument forms", params=dict(n=2))
run("C10", "rebase.cpp", "rebase_all", "all functions of 3 variables", params=dict(n=3, gap=1), name="rebase_3")
run("C10", "rebase.cpp", "rebase_support", "maps covering just the support")
run("C12", "exact1.cpp", "exact_all", "all functions of 3 variables", params=dict(n=3))
run("C12", "exact1.cpp", "exact_all", "all functions of 4 variables, gaps", params=dict(n=4, lay=1), name="exact_4")
run("C12", "exact1.cpp", "exact_chain", "all cubes over 6 variables, and with a second solution", params=dict(n=6))
run("C19", "pools.cpp", "node_pool", "6 arbitrary steps", params=dict(K=6))
run("C19", "pools.cpp", "node_pool", "6 arbitrary steps around the end of the first page", params=dict(K=6, pre=4092), name="node_pool_edge")
run("C19", "pools.cpp", "node_reuse", "8 arbitrary steps", params=dict(K=8))
for e in ("pages_4_1", "pages_4_2", "pages_8_3", "pages_64_4", "pages_reuse"): run("C19", "pools.cpp", e, "arbitrary steps", params=dict(K=7))
run("C19", "pools.cpp", "pages_mgr", "page sizes 64..16384 of the manager", params=dict(max=14))
run("C19", "pools.cpp", "pages_tables", "4 steps of growing and collecting 3 tables", params=dict(K=3))
run("C20", "vars.cpp", "vars_steps", "4 arbitrary steps", params=dict(K=3))
run("C20", "vars.cpp", "vars_grow", "all functions of 3 variables, 1..7 variables added")
run("C20", "vars.cpp", "vars_move_grown", "tables with 0..51 of 56 nodes moved")
run("C24", "nodes.cpp", "depth_dag", "all DAGs of 4 nodes", params=dict(k=4))
run("C25", "nodes.cpp", "node_fields", "every 41-bit variable index below the terminals'")
run("C25", "nodes.cpp", "node_eval", "every pair of variables below 6, every assignment")
run("C13", "coll.cpp", "coll_add", "all functions of 3 variables among 0..1 BDDs before and after", params=dict(n=3, kinds=4))
run("C13", "coll.cpp", "coll_add", "all functions of 2 variables among 0..2 BDDs before and after", params=dict(n=2, B=2, A=2, kinds=5), name="coll_add_more")
run("C13", "coll.cpp", "coll_gap", "variables with gaps")
run("C13", "coll.cpp", "coll_large", "collections of more than 2500 instructions, a BDD of 1399 nodes")
run("C14", "coll.cpp", "coll_and2", "all pairs of 2-variable functions, overlapping variables, 3 call forms", params=dict())
run("C14", "coll.cpp", "coll_and2", "same variables", params=dict(shift=0, pre=0), name="coll_and2_same")
run("C14", "coll.cpp", "coll_and2", "2-variable functions on disjoint variables", params=dict(shift=2, pre=0), name="coll_and2_disj")
run("C14", "coll.cpp", "coll_andn", "lists of 3..49, arbitrary function at any position", params=dict())
run("C14", "coll.cpp", "coll_and3", "3 arbitrary functions of 2 variables", params=dict(K=3))
run("C14", "coll.cpp", "coll_and3", "lists of 1..4 out of 8 functions", params=dict(K=4, rep=1), name="coll_and3_rep")
run("C14", "coll.cpp", "coll_and_big", "parity, cardinalities and simplex of 12 variables")
run("C15", "coll.cpp", "coll_limit2", "all pairs of 2-variable functions, any 64-bit limits, twice", reach=["end", "refused", "accepted"])
run("C15", "coll.cpp", "coll_limitn", "lists of 3..5, any 64-bit limits", reach=["end", "refused", "accepted"])
run("C15", "coll.cpp", "coll_limit_big", "larger results, any 64-bit limit", reach=["end", "refused", "accepted"])
run("C16", "coll2.cpp", "or_var", "all functions of 3 variables, any literals of these and one further variable", params=dict(n=3), reach=["end", "exact", "inexact"])
run("C16", "coll2.cpp", "or_var_clause", "clauses and simplices of 1..6 variables, any signs", params=dict(M=6))
run("C16", "coll2.cpp", "or_var_large", "BDDs of 300 nodes and more")
run("C17", "coll2.cpp", "crebase", "3 BDDs, arbitrary function of 2 variables at any place, gaps up to 2, 5 call forms")
run("C17", "coll2.cpp", "crebase", "functions of 3 variables", params=dict(n=3, gap=1, N=2), name="crebase_3")
run("C17", "coll2.cpp", "cremove", "4 BDDs, arbitrary function at any place, any subset removed, operations afterwards")
run("C17", "coll2.cpp", "cremove", "3 BDDs, twice", params=dict(N=3, rounds=2), name="cremove_twice")
run("C17", "coll2.cpp", "cremove_many", "40 BDDs, periodic subsets")
run("C18", "coll2.cpp", "views", "pairs of 2-variable functions, 7 ways of production")
run("C18", "coll2.cpp", "views", "functions of 3 variables", params=dict(n=3, g=0), name="views_3")
run("C21", "coll2.cpp", "builder", "2 nodes, arcs anywhere or unset, variables in any order", params=dict(k=2, nv=2), reach=["end", "refused"])
run("C21", "coll2.cpp", "builder", "3 nodes, arcs anywhere", params=dict(k=3, nv=3, anyvar=0), reach=["end", "refused"], name="builder_3")
run("C21", "coll2.cpp", "builder_canon", "all functions of 3 variables")
run("C23", "coll2.cpp", "print_all", "all functions of 3 variables")
run("C23", "coll2.cpp", "graphviz_all", "all functions of 3 variables")
run("C22", "teardown.cpp", "teardown", "2 arbitrary operations of 14 kinds, 3 orders of destruction", params=dict(n=3, K=2))
run("C22", "teardown.cpp", "teardown", "descending addresses", params=dict(n=2, K=2), desc=True, name="teardown_desc")
run("C22", "teardown.cpp", "teardown_large", "cardinality BDDs of 24 variables, arbitrary collections", params=dict(L=24), steps=400000000)
run("C22", "teardown.cpp", "teardown_tables", "tables with wrapping keys, any nodes left unreferenced", params=dict(K=4))
run("C26", "teardown.cpp", "two_managers", "2 arbitrary operations in 2 managers", params=dict(K=2))
run("C26", "teardown.cpp", "find_mgr", "all functions of 3 variables")
BIG = dict(steps=4000000000)
run("C01", "large.cpp", "big_ops", "symmetric functions of 70 variables, 6 operations", params=dict(n=70, pats=0), **BIG)
run("C02", "large.cpp", "big_ops", "all operations in a row", params=dict(n=60, what=1, kf=1, kg=2, pats=0), **BIG)
run("C04", "large.cpp", "big_ops", "all operations in a row on functions of 100 variables", params=dict(n=90, what=1, kf=1, g0=1, kg=2, pats=0), **BIG)
run("C05", "large.cpp", "big_ops", "collection between operations on functions of 150 variables", params=dict(n=150, what=2, kf=0, g0=1, kg=1, ops=1, pats=0), **BIG)
run("C09", "large.cpp", "big_ops", "unbounded limited conjunction, after other operations", params=dict(n=50, what=1, kf=2, g0=1, kg=3, pats=0), **BIG)
for P in ("C05", "C06", "C22"): run(P, "large.cpp", "big_gc", "3 symmetric functions of 200 variables, any kept, 2 rounds", params=dict(n=200), reach=["end", "destroyed"], **BIG)
run("C11", "large.cpp", "big_traverse", "79800 nodes", **BIG)
run("C10", "large.cpp", "big_rebase", "45000 nodes", **BIG)
run("C13", "large.cpp", "big_coll", "more than 66000 instructions", params=dict(w0=0, w1=0), **BIG)
run("C17", "large.cpp", "big_coll", "removal from more than 120000 instructions", params=dict(w0=1, w1=1, total=120000), **BIG)
run("C17", "large.cpp", "big_coll", "rebasing in more than 66000 instructions", params=dict(w0=4, w1=4), name="big_coll_rebase", **BIG)
for P in ("C14", "C15"): run(P, "large.cpp", "big_coll", "conjunctions in more than 66000 instructions", params=dict(n=60, w0=2, w1=3), **BIG)
for P in ("C16", "C18"): run(P, "large.cpp", "big_coll", "disjunction with literals in more than 66000 instructions", params=dict(w0=5, w1=5), **BIG)
for P in ("C12", "C26"): run(P, "large.cpp", "big_chain", "chains of 3000 variables", **BIG)
run("C24", "large.cpp", "big_chain", "chains of 3000 variables", params=dict(depth=1), **BIG)
for P in ("C07", "C20"): run(P, "large.cpp", "big_counts", "140000 handles; 66000 variables", **BIG)
