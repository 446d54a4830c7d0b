prop('C01', 'A reported proof is never wrong',
 'Whenever the prover reports that a problem is a theorem, unsatisfiable, or has contradictory axioms, no interpretation satisfies the axioms together with the negated conjecture. '
 'This holds for every input problem and every combination of ordering, literal selection, clause selection, simplification, splitting and preprocessing options.',
 ['inputs', 'configurations'], 'every first-order problem with or without equality, and every strategy that can be selected',
 'each example is one input under one strategy, so an unsound rule that only fires on another clause shape or option is never exercised.',
 ['CONTROL/cco_proofproc.c', 'CLAUSES/ccl_paramod.c', 'CLAUSES/ccl_rewrite.c', 'CLAUSES/ccl_factor.c', 'CLAUSES/ccl_condensation.c', 'CLAUSES/ccl_context_sr.c', 'PROVER/eprover.c'],
 [('generating inferences and contraction in the given-clause loop', 'CONTROL/cco_proofproc.c'), ('verdict printing', 'PROVER/eprover.c')],
 ['SZS status line printed by the prover'],
 level='model_checking', technique='bounded exhaustive enumeration of problems and strategies, run on the real prover; verdicts decided by exhaustive finite-model enumeration',
 note='problems: all maximal satisfiable subsets of 2470 minimal unsatisfiable clause sets and all subsets of up to 2 (thorough 3) clauses of 16 clause pools, with and without conjecture, under 54 strategies (quick: every strategy on every 17th/11th problem)')
prop('C02', 'A reported saturation is never wrong',
 'Whenever the prover reports that a problem is satisfiable, or that a conjecture is counter-satisfiable, the axioms together with the negated conjecture really have a model. '
 'Incomplete options may make it give up, but never make it report saturation for an unsatisfiable problem.',
 ['inputs', 'configurations'], 'every problem and every strategy, including those that delete, filter or limit clauses',
 'a lost clause or missed inference only shows on the problems whose refutation needs it.',
 ['CONTROL/cco_proofproc.c', 'CLAUSES/ccl_subsumption.c', 'CLAUSES/ccl_tautologies.c', 'PROVER/eprover.c', 'CLAUSES/ccl_proofstate.c'],
 [('redundancy elimination', 'CLAUSES/ccl_subsumption.c, CLAUSES/ccl_tautologies.c, CLAUSES/ccl_rewrite.c'), ('tracking of incompleteness', 'PROVER/eprover.c')],
 ['SZS status line printed by the prover'],
 level='model_checking', technique='bounded exhaustive enumeration of problems and strategies, run on the real prover; unsatisfiability known for each enumerated core',
 note='problems: 2470 minimal unsatisfiable subsets of 16 clause pools (confirmed by z3 when the list was made) and all function-free subsets (decided by finite models) under 54 strategies (quick: every strategy on every 3rd problem)')
prop('C03', 'Every proof object is complete and each of its steps is justified',
 'A proof object printed for a successful run is a closed derivation: every premise it names is itself listed before its use, its leaves are formulas of the input (or marked as introduced definitions), and it ends in the empty clause. '
 'Each derived formula follows from its listed premises in the way its recorded status says: logical consequence, negation of the conjecture, or extension by new symbols only.',
 ['inputs', 'configurations'], 'every proof found for any input under any strategy, in both proof formats',
 'the proofs themselves are not looked at.',
 ['CLAUSES/ccl_derivation.c', 'CLAUSES/ccl_inferencedoc.c', 'CLAUSES/ccl_formula_wrapper.c', 'CLAUSES/ccl_clauseinfo.c'],
 [('derivation records of clauses and formulas', 'CLAUSES/ccl_derivation.c')],
 ['proof object on standard output'],
 level='model_checking', technique='bounded exhaustive enumeration of problems and strategies, run on the real prover; every step of every proof object checked on all interpretations with 1 and 2 elements',
 note='2470 minimal unsatisfiable clause sets in three written forms and all formulas with 2 and 3 connectives, 54+6 strategies (quick: every strategy on every 16th problem)')
prop('C04', 'Clausification preserves the models of the input',
 'Converting formulas to clause normal form neither loses nor adds models: on every domain, an interpretation of the input symbols satisfies the axioms and the negated conjecture exactly when it can be extended to the new symbols so that all clauses hold. '
 'This holds for every nesting of connectives and quantifiers and for every clausification option (definitions for subformulas, miniscoping).',
 ['inputs', 'configurations'], 'all closed formulas, all clausification options',
 'a wrong polarity, variable capture or missing Skolem argument shows only for particular nestings.',
 ['CLAUSES/ccl_tcnf.c', 'CLAUSES/ccl_tformulae.c', 'CLAUSES/ccl_formulafunc.c', 'CLAUSES/ccl_formulasets.c'],
 [('simplification, definition introduction, NNF, miniscoping, Skolemization, distribution', 'CLAUSES/ccl_tcnf.c')],
 ['clauses printed by the clausifier mode'],
 level='model_checking', technique='bounded exhaustive enumeration of formulas and options, clausified by the real prover; model sets compared on all interpretations with 1, 2 and 3 elements',
 note='all formulas with up to 2 (thorough 3-5) connectives and quantifiers over 6 leaf patterns, pairs sharing subformulas, long chains; 6 option sets')
prop('C05', 'Clausal preprocessing preserves satisfiability',
 'Preprocessing of the clause set before saturation (unfolding of equational definitions, predicate elimination, removal of blocked clauses, removal of tautologies, subsumed or irrelevant clauses) yields a clause set that is satisfiable exactly if the original one is. '
 'Where it only drops possibly irrelevant axioms it says so by giving up the right to report satisfiability.',
 ['inputs', 'configurations'], 'all clause sets, all preprocessing options and their parameters',
 'the default strategies use few of these transformations, on few clause shapes.',
 ['CLAUSES/ccl_pred_elim.c', 'CLAUSES/ccl_bce.c', 'CLAUSES/ccl_unfold_defs.c', 'CONTROL/cco_preprocessing.c', 'CLAUSES/ccl_def_handling.c'],
 [('predicate elimination', 'CLAUSES/ccl_pred_elim.c'), ('blocked clause elimination', 'CLAUSES/ccl_bce.c'), ('definition unfolding', 'CLAUSES/ccl_unfold_defs.c')],
 ['clause set printed after preprocessing', 'SZS status'],
 level='model_checking', technique="exhaustive enumeration of small clause sets x preprocessing options run through the real prover's preprocessing, output compared with the input by complete finite-model enumeration",
 note='clause sets: pools, all minimal unsatisfiable sets and their neighbours; 11 option sets')
prop('C06', 'Every logged inference is a sound consequence of its logged premises',
 'In the full inference protocol, each clause or formula recorded as derived follows logically from the steps named as its premises, except steps that introduce new symbols, which keep satisfiability. '
 'Every step named as a premise has been recorded earlier in the same protocol.',
 ['inputs', 'configurations', 'histories'], 'every step of every run, whether or not it ends up in a proof',
 'the protocol is never produced by the tests, and unsound steps that do not lead to a proof are invisible in the status.',
 ['CLAUSES/ccl_inferencedoc.c', 'CLAUSES/ccl_paramod.c', 'CLAUSES/ccl_rewrite.c', 'CLAUSES/ccl_eqnresolution.c', 'CLAUSES/ccl_factor.c', 'CLAUSES/ccl_unit_simplify.c', 'CLAUSES/ccl_context_sr.c', 'CLAUSES/ccl_condensation.c', 'CLAUSES/ccl_splitting.c'],
 [('paramodulation, equality resolution and factoring', 'CLAUSES/ccl_paramod.c, CLAUSES/ccl_eqnresolution.c, CLAUSES/ccl_factor.c'), ('simplification', 'CLAUSES/ccl_rewrite.c, CLAUSES/ccl_unit_simplify.c, CLAUSES/ccl_context_sr.c')],
 ['inference protocol on standard output'],
 level='model_checking', technique='bounded exhaustive enumeration of problems and strategies, run on the real prover; every logged step checked on all interpretations with 1 and 2 elements',
 note='all maximal satisfiable subsets of 2470 minimal unsatisfiable clause sets, the sets themselves, and formulas with 2 connectives; 54+6 strategies (quick: every strategy on every 401st problem)')
prop('C07', 'Term orderings are simplification orderings for every precedence and weights',
 'Each term ordering the prover offers is, for every precedence and every admissible weight assignment, irreflexive, transitive, stable under substitution, compatible with term context, contains the subterm relation, and is total on ground terms. '
 'The answers for the two argument orders agree, and all implementations of the same ordering give the same answer.',
 ['inputs', 'configurations'], 'all pairs and triples of terms, all substitutions, all precedences and weights',
 'a wrong comparison makes rewriting loop or lose completeness only on rare term pairs.',
 ['ORDERINGS/cto_kbo.c', 'ORDERINGS/cto_kbolin.c', 'ORDERINGS/cto_lpo.c', 'ORDERINGS/cto_orderings.c', 'ORDERINGS/cto_ocb.c'],
 [('Knuth-Bendix ordering', 'ORDERINGS/cto_kbo.c, ORDERINGS/cto_kbolin.c'), ('lexicographic path ordering', 'ORDERINGS/cto_lpo.c')],
 ['result of comparing two terms'],
 level='model_checking', technique='exhaustive enumeration of precedences, weights and terms on the real ordering code; all ordering axioms checked on all pairs and triples',
 note='all precedences and admissible weights (2 values per symbol, zero-weight unary) for signatures of 2-5 symbols, all terms up to size 3-7 with 2 variables, KBO, KBO6, LPO, LPOCopy, LPO4, LPO4Copy, precedence as ranks and as matrix')
prop('C08', 'Equations are oriented and maximal literals marked as the ordering dictates',
 'An equation is marked oriented exactly when its left side is larger than its right side in the term ordering in force, and within a clause a literal is marked maximal (strictly maximal) exactly when no other literal is larger (larger or equal) in the literal ordering that extends it (positive equations as {{s},{t}}, negative ones as {{s,t}}, compared as multisets of multisets). '
 'The marks are the same whatever the order of the literals in the clause and however the sides of an equation were written.',
 ['inputs', 'configurations'], 'all clauses over a signature, all orderings',
 'the inference restrictions that use these marks are never observed directly.',
 ['CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_eqnlist.c', 'CLAUSES/ccl_clauses.c', 'ORDERINGS/cto_orderings.c'],
 [('orientation of equations', 'CLAUSES/ccl_eqn.c'), ('literal comparison and maximality marking', 'CLAUSES/ccl_eqn.c, CLAUSES/ccl_eqnlist.c')],
 ['literal marks of a clause'],
 level='model_checking', technique='exhaustive enumeration of orderings and clauses, marked by the real code, against a reference literal ordering',
 note='all clauses of up to 2 literals with sides of up to 3 nodes and of 3 literals with sides up to 2 nodes, in every literal order and both ways of writing each equation, 2-4 orderings x 6-120 precedences x 3-4 literal comparison modes; instances under 4 bindings')
prop('C09', 'Unification and matching are sound, most general and complete',
 'Two terms are reported unifiable exactly when some substitution makes them equal, and the substitution returned makes them equal and is most general. '
 'One term is reported to match another exactly when an instance of it equals the other, and failed attempts leave all variable bindings as they were before.',
 ['inputs', 'histories'], 'all pairs of terms, from any state of existing bindings',
 'no test looks at a substitution.',
 ['TERMS/cte_match_mgu_1-1.c', 'TERMS/cte_subst.c', 'TERMS/cte_pattern_match_mgu.c'],
 [('unification and matching', 'TERMS/cte_match_mgu_1-1.c'), ('binding stack with backtracking', 'TERMS/cte_subst.c')],
 ['return value and bindings'],
 level='model_checking', technique='exhaustive enumeration of term pairs and initial binding states on the real unification and matching code, against Robinson unification on reference terms',
 note='all pairs of terms with up to 5 nodes (a,f/1,g/2,h/3, 3 variables), up to 6 nodes (a,f,g) and two-sorted up to 6 nodes, from 5 binding states (thorough: 6-7 nodes)')
prop('C10', 'Indices never miss a partner and never return a wrong one',
 'After any sequence of insertions and deletions, retrieval from the indices for rewriting, unit subsumption, subsumption and overlap returns every stored clause or term position that is a partner for the query by direct comparison, and after filtering nothing else. '
 'Deleting everything that was inserted leaves an index that returns nothing.',
 ['histories', 'inputs', 'configurations'], 'all insert/delete/query sequences and every index type',
 'a missed partner only weakens the search, and a stale entry only shows after a particular history.',
 ['CLAUSES/ccl_pdtrees.c', 'TERMS/cte_fp_index.c', 'TERMS/cte_idx_fp.c', 'CLAUSES/ccl_fcvindexing.c', 'CLAUSES/ccl_freqvectors.c', 'CLAUSES/ccl_subterm_index.c', 'CLAUSES/ccl_overlap_index.c', 'CLAUSES/ccl_global_indices.c'],
 [('perfect discrimination trees', 'CLAUSES/ccl_pdtrees.c'), ('fingerprint indices', 'TERMS/cte_fp_index.c'), ('feature vector index', 'CLAUSES/ccl_fcvindexing.c')],
 ['set of entries retrieved'],
 level='model_checking', technique='exhaustive enumeration of insert/delete histories on the real indices, every retrieval compared with direct matching, unification and subsumption on reference terms',
 note='perfect discrimination tree: all histories of up to 4 operations on 3 of 27 units; feature vector index with 9 feature sets, up to 3 operations on 3 of 24 clauses; 16 fingerprint functions on pairs of terms up to 4 nodes; backward rewriting and paramodulation indices up to 3-4 operations on 2-3 of 22 clauses')
prop('C11', 'Subsumption is exact and condensation preserves meaning',
 'A clause is reported to subsume another exactly when one of its instances is a sub-multiset of the other, with equations read in both directions, whatever the order of literals and whether one clause or a whole set is searched. '
 'Condensing a clause yields a shorter clause that is equivalent to it.',
 ['inputs', 'histories'], 'all pairs of clauses, all literal orders, all clause sets',
 'a clause wrongly discarded only matters for the rare problem that needs it.',
 ['CLAUSES/ccl_subsumption.c', 'CLAUSES/ccl_condensation.c', 'CLAUSES/ccl_unit_simplify.c'],
 [('clause and set subsumption, unit subsumption', 'CLAUSES/ccl_subsumption.c'), ('condensation', 'CLAUSES/ccl_condensation.c')],
 ['subsumption answers and resulting clauses'],
 level='model_checking', technique='exhaustive enumeration of clause pairs on the real subsumption and condensation code, against subsumption by exhaustive matching',
 note='all pairs of clauses with up to 3 and up to 4 literals over three pools of 20-22 literals, up to 3 and 3 over 40 literals, every rotation of the literals with sides swapped (thorough: 4 and 4)')
prop('C12', 'Term sharing is perfect and collection never frees what is in use',
 'In the shared term store, two references are identical exactly when the terms are equal, and the recorded weight and variable status of a term match its structure, after any sequence of insertions, instantiations, copies and collections. '
 'Collecting garbage removes exactly the terms that are not reachable from registered clauses or formulas, and leaves those unchanged.',
 ['histories', 'inputs'], 'all sequences of term store operations and collections',
 'damage appears only after particular histories and far from its cause.',
 ['TERMS/cte_termbanks.c', 'TERMS/cte_termcellstore.c', 'TERMS/cte_garbage_coll.c', 'TERMS/cte_termtrees.c', 'CLAUSES/ccl_garbage_coll.c'],
 [('hash-consing term store', 'TERMS/cte_termbanks.c, TERMS/cte_termcellstore.c'), ('mark and sweep', 'TERMS/cte_garbage_coll.c')],
 ['term references, printed terms, number of stored terms'],
 level='model_checking', technique='explicit-state exploration of the real term store: all operation sequences up to a depth, checked against a reference set of terms',
 note='all sequences of 3 (thorough 4) operations over three term pools, plus address sanitizer')
prop('C13', 'Rewriting yields equal normal forms, independent of caching history',
 'Rewriting a term or clause with a set of unit equations yields a result that is equal to it in the theory of the equations that are or have been in the set, and to which no equation now in the set can be applied any further in decreasing direction. '
 'This holds whatever has been rewritten, marked or cached before, and rewriting again changes nothing. A new equation is reported to rewrite exactly those processed clauses it does rewrite.',
 ['inputs', 'histories', 'configurations'], 'all terms, all sets of equations, all histories of adding and removing equations',
 'stale cached normal forms show only after particular sequences.',
 ['CLAUSES/ccl_rewrite.c', 'CLAUSES/ccl_pdtrees.c', 'PROVER/enormalizer.c'],
 [('forward and backward rewriting with normal form dates', 'CLAUSES/ccl_rewrite.c')],
 ['normal form printed by the normalizer tool or returned by the library'],
 level='model_checking', technique='explicit-state exploration of equation-set histories (insert, remove, rewrite) on the real rewriting code against an independent reference normaliser',
 note='terms and rules over a small signature, all histories within the bound')
prop('C14', 'Basic containers behave like their mathematical counterparts',
 'The stacks, queues, lists, dynamic and range arrays, integer maps, priority heaps, strings, and the search trees keyed by pointer, number, number pair, string or comparison function behave, for every sequence of operations, exactly like the abstract sequence, map or set they implement. '
 'Iteration visits every stored element exactly once in the documented order, and deleting or extracting one element never loses or duplicates another.',
 ['histories', 'inputs'], 'all operation sequences, all key patterns',
 'containers are only exercised indirectly, by the one access pattern of each example.',
 ['BASICS/clb_ptrees.c', 'BASICS/clb_numtrees.c', 'BASICS/clb_numxtrees.c', 'BASICS/clb_stringtrees.c', 'BASICS/clb_floattrees.c', 'BASICS/clb_objtrees.c', 'BASICS/clb_objmaps.c', 'BASICS/clb_quadtrees.c', 'BASICS/clb_pqueue.h', 'BASICS/clb_pstacks.c', 'BASICS/clb_plist.c', 'BASICS/clb_pdarrays.c', 'BASICS/clb_pdrangearrays.c', 'BASICS/clb_intmap.c', 'BASICS/clb_min_heap.c', 'BASICS/clb_dstrings.c'],
 [('splay trees and AVL trees', 'BASICS/clb_*trees.c'), ('integer map with several representations', 'BASICS/clb_intmap.c'), ('growing ring buffer', 'BASICS/clb_pqueue.h')],
 ['return values, iteration order, element counts'],
 level='model_checking', technique='exhaustive enumeration of operation sequences on the real containers against a reference model',
 note='all sequences of 3 to 8 operations (thorough 4 to 10) over 4-12 keys for 19 containers, also after inserting 6 or 8 keys in every order; address sanitizer at smaller depth')
prop('C15', 'Clause selection hands out every clause once, best first',
 'A clause set with evaluations always yields, for each of its evaluation queues, the stored clause with the smallest priority, then weight, then age; it hands out each clause exactly once and none that has been removed. '
 'The weighted round-robin of a heuristic takes from its queues in the configured proportions, so no queue starves.',
 ['histories', 'inputs', 'configurations'], 'all insert/remove/select sequences and all mixes of queues',
 'a lost or repeated clause only changes the search order or loses a proof in long runs.',
 ['CLAUSES/ccl_clausesets.c', 'CLAUSES/ccl_neweval.c', 'HEURISTICS/che_hcb.c', 'HEURISTICS/che_heuristics.c'],
 [('evaluation trees', 'CLAUSES/ccl_neweval.c, CLAUSES/ccl_clausesets.c'), ('queue scheduling', 'HEURISTICS/che_hcb.c')],
 ['sequence of selected clauses'],
 level='model_checking', technique='explicit-state exploration of all operation sequences on the real clause set and heuristic control block against a reference priority model',
 note='sequences up to length 5-6 under 6 queue mixes')
prop('C16', 'Printing and parsing are inverse',
 'Whatever formula or clause the system reads, what it prints for it in the same language is accepted again and has the same meaning, and from the second printing on the text no longer changes, apart from the names of variables. '
 'All input languages for the same problem (first-order formulas, clause form, old and new formats) are understood alike.',
 ['inputs', 'configurations'], 'all formulas, terms and clauses, including quoted, numeric and unusual symbols, in each language',
 'nothing printed is read back.',
 ['CLAUSES/ccl_tformulae.c', 'CLAUSES/ccl_formula_wrapper.c', 'CLAUSES/ccl_clauses.c', 'CLAUSES/ccl_eqn.c', 'TERMS/cte_termbanks.c', 'TERMS/cte_signature.c', 'INOUT/cio_scanner.c'],
 [('scanner', 'INOUT/cio_scanner.c'), ('formula parser and printer', 'CLAUSES/ccl_tformulae.c')],
 ['text printed by the prover in its print-only modes'],
 level='model_checking', technique='bounded exhaustive enumeration of formulas, clauses and names; each is read, printed and read again by the real code and both readings compared by finite-model enumeration',
 note='all formulas with up to 3 connectives over leaf patterns, all clauses of up to 3 literals in 3 languages, all pairs of unusual names')
prop('C17', 'Malformed input is always rejected cleanly',
 'For every byte sequence given as input (problem, included file, proof protocol, axiom filter, strategy, watch list, search heuristic or ordering given on the command line), the first-order programs either process it or stop with an error message and a non-zero exit status; they never crash, never read or write outside their memory, never loop forever, never accept text with unbalanced brackets, quotes or comments, and never report a verdict for input they could not read to its end.',
 ['inputs'], 'all finite byte sequences, in particular every truncation and every single-token change of valid input',
 'only well-formed problems are run.',
 ['INOUT/cio_scanner.c', 'INOUT/cio_basicparser.c', 'INOUT/cio_streams.c', 'CLAUSES/ccl_tformulae.c', 'TERMS/cte_termbanks.c', 'TERMS/cte_signature.c', 'TERMS/cte_typecheck.c'],
 [('token checks', 'INOUT/cio_scanner.c')],
 ['exit status, standard output and standard error'],
 level='model_checking', technique='exhaustive enumeration of all single-position changes of base inputs, run on the real programs under an address checker',
 note='every truncation, deletion, replacement, insertion, doubling, exchange, control byte and nesting at every position of 17 base inputs for 7 programs')
prop('C18', 'Deduction server sessions follow their command protocol',
 'After any sequence of commands, the named axiom sets of a deduction server session and their staged state are exactly those that the successful commands imply, a command that is refused changes nothing, and every command is answered. '
 'A proof job runs with exactly the staged axioms plus those of the job itself, and its additions do not persist.',
 ['histories', 'inputs'], 'all finite command sequences of a session, valid or not',
 'the server is not run at all.',
 ['CONTROL/cco_einteractive_mode.c', 'PROVER/e_deduction_server.c', 'CONTROL/cco_batch_spec.c'],
 [('command interpreter', 'CONTROL/cco_einteractive_mode.c')],
 ['answers of the server, problem given to the prover'],
 level='model_checking', technique='explicit-state exploration: every command sequence up to length 4 (5 thorough) run by the real server loop over a socket, compared with a reference model of the session',
 note='jobs run with a recording stand-in for the prover; uploaded texts are well formed')
prop('C19', 'Messages survive the network unchanged however they are segmented',
 'A sequence of messages sent over a connection is received as the same sequence of messages, byte for byte, however the bytes are split or merged by reads and writes. '
 'A peer that closes early or sends a malformed length leads to a reported error, never to memory damage or a made-up message.',
 ['schedules', 'inputs', 'fault_sequences'], 'all segmentations of sends and receives, all early closes, all header values',
 'the network layer is not run at all.',
 ['INOUT/cio_network.c', 'CONTROL/cco_esession.c'],
 [('length-prefixed messages with partial send and receive', 'INOUT/cio_network.c')],
 ['messages received, state reported'],
 level='model_checking', technique='stateless exploration of all segmentations, schedules, early ends and errors of a virtual connection driving the real message layer',
 note='in-process, read/write/connect interposed; also under AddressSanitizer')
prop('C20', 'Parallel strategy runs report the right result and leave nothing behind',
 'When several strategies or provers run in parallel processes, the overall result is the result of one that succeeded if any succeeds within its limits, whatever the order in which the processes produce output, end, crash or run out of time. '
 'Limits on the number of simultaneous processes are respected, and all processes are ended and collected before the result is final.',
 ['schedules', 'fault_sequences', 'configurations'], 'all interleavings of output, exit, crash and timeout of the child processes',
 'at most one schedule on an idle machine is seen.',
 ['CONTROL/cco_proc_ctrl.c', 'CONTROL/cco_gproc_ctrl.c', 'CONTROL/cco_scheduling.c', 'PROVER/e_stratpar.c'],
 [('process sets with non-blocking output collection', 'CONTROL/cco_proc_ctrl.c, CONTROL/cco_gproc_ctrl.c'), ('multi-core schedules', 'CONTROL/cco_scheduling.c')],
 ['overall status, exit code, remaining processes'],
 level='model_checking', technique='stateless exploration of all event histories of the real scheduler with real strategy processes under a controlled select(), within bounds',
 note='schedules of 2-3 (4) strategies and batches of provers; also under AddressSanitizer')
prop('C21', 'Running out of a resource never produces a wrong verdict',
 'When memory, time, or a limit on processed, generated or stored clauses is exhausted, or a termination signal arrives, at any point of a run, the prover ends with a resource-out or give-up status and the matching exit code, or with a verdict that is true. '
 'It never reports a proof or saturation that the full run would contradict, never hangs and never crashes.',
 ['fault_sequences', 'crash_points', 'inputs'], 'every point at which an allocation can fail, a limit can strike or a signal can arrive',
 'the examples finish well within their limits.',
 ['PROVER/eprover.c', 'INOUT/cio_signals.c', 'BASICS/clb_memory.c', 'CONTROL/cco_proofproc.c'],
 [('limits checked in the main loop', 'CONTROL/cco_proofproc.c'), ('signal handlers', 'INOUT/cio_signals.c'), ('checked allocation', 'BASICS/clb_memory.c')],
 ['SZS status, exit code'],
 level='model_checking', technique='stateless exploration of all fault, signal and limit points of runs of the real prover under an injecting allocator',
 note='7 problems x 10 option sets: every allocation failing (once or for good), signals at allocations, all small values of six limits; verdict against known status, exit code, crash, hang.')
prop('C22', 'Axiom filtering selects exactly the documented relevant subset',
 'Relevance filtering outputs only formulas of its input, unchanged and without repetition. A SInE filter selects the conjectures (and, if asked for, hypotheses) first and then, round by round, exactly the axioms that the documented trigger relation with its frequency measure, benevolence, generosity, depth, size and fraction parameters reaches; size limits cut off the last rounds first; a threshold filter passes all or nothing; artificial seeding uses the symbols and axioms it documents. '
 'A verdict obtained on a filtered problem is never a claim that the unfiltered conjecture fails.',
 ['inputs', 'configurations'], 'all axiom sets and all filter parameters',
 'filters are only used inside automatic mode on problems too small to matter.',
 ['CLAUSES/ccl_sine.c', 'CLAUSES/ccl_f_generality.c', 'HEURISTICS/che_axfilter.c', 'CONTROL/cco_sine.c', 'PROVER/e_axfilter.c'],
 [('trigger relation and breadth-first selection', 'CLAUSES/ccl_sine.c, CONTROL/cco_sine.c')],
 ['filtered problem files, SZS status'],
 level='model_checking', technique='exhaustive enumeration of formula sets and filter parameters on the real filter program against a reference selection',
 note='Every subset of up to 5 (thorough 6) formulas of a pool x goals x filter grid; artificial seeds; prover verdicts under filters against model enumeration.')
prop('C23', 'Grounding and the propositional back end agree with the first-order meaning',
 'The ground instances produced by the grounding tool are instances of the input clauses and, for problems without function symbols, are propositionally satisfiable exactly if the input is. '
 'When the prover uses the built-in propositional solver on ground instances, it reports unsatisfiability only if the input is unsatisfiable.',
 ['inputs', 'configurations'], 'all function-free clause sets and all grounding options; all clause sets for the propositional check',
 'neither the grounding tool nor the propositional check is run by the tests.',
 ['CLAUSES/ccl_grounding.c', 'CLAUSES/ccl_propclauses.c', 'CLAUSES/ccl_groundconstr.c', 'CLAUSES/ccl_satinterface.c', 'PROVER/eground.c'],
 [('instance generation with constraints', 'CLAUSES/ccl_grounding.c'), ('encoding for the propositional solver', 'CLAUSES/ccl_satinterface.c')],
 ['ground clauses printed, SZS status'],
 level='model_checking', technique='exhaustive enumeration of clause sets and options on the real grounding tool and the real prover',
 note='Every set of up to 4 (thorough 5) of 18 function-free clauses x 12 option sets against a separate propositional decision; 54 settings of the propositional check on sets with known status.')
prop('C24', 'Printed answers are true',
 'For a question with answer variables, every answer tuple the prover prints makes the question true in all models of the axioms (for disjunctive answers: at least one listed tuple does in each model), has one part per answer variable in their order, and no more answers are printed than asked for. Asking for answers never turns a theorem into a non-theorem or the other way round.',
 ['inputs', 'configurations'], 'all axioms and questions',
 'no example asks for answers.',
 ['CLAUSES/ccl_tcnf.c', 'CLAUSES/ccl_formulafunc.c', 'CLAUSES/ccl_clauses.c', 'CONTROL/cco_proofproc.c'],
 [('answer literals', 'CLAUSES/ccl_formulafunc.c, CONTROL/cco_proofproc.c')],
 ['SZS answers lines'],
 level='model_checking', technique='exhaustive enumeration of axiom sets, questions and strategies on the real prover; answers decided by exhaustive finite-model enumeration',
 note='13 question forms x every set of up to 3 (thorough 4) of 16 axioms x 14 option sets; every printed answer checked on all interpretations with up to 3 elements.')
prop('C25', 'Protocol tools keep exactly the steps of a valid derivation',
 'From any well-formed inference protocol, the extraction tool outputs exactly the steps that the proof depends on, with unchanged content and in order of dependency, in either of its processing modes (fast mode for protocols that end in the marked steps). '
 'Every refutation the prover documents by clause inferences can be extracted and is accepted by the proof checker, and a protocol with an inferred clause that does not follow from its parents is not reported as verified.',
 ['inputs', 'histories'], 'all protocols, all proof graphs',
 'the tools are not run by the tests.',
 ['PCL2/pcl_protocol.c', 'PCL2/pcl_steps.c', 'PCL2/pcl_miniprotocol.c', 'PCL2/pcl_ministeps.c', 'PCL2/pcl_expressions.c', 'PCL2/pcl_proofcheck.c', 'PROVER/epclextract.c', 'PROVER/checkproof.c'],
 [('marking of used steps', 'PCL2/pcl_protocol.c, PCL2/pcl_miniprotocol.c')],
 ['output of the tools'],
 level='model_checking', technique='exhaustive enumeration of protocol graphs and of prover / extractor / checker chains on the real programs',
 note='All dependency graphs of up to 4 (thorough 5) steps with marks, numberings and orders against a reference extraction; one-step proofs over a clause pool against model enumeration; protocols of the prover for minimal unsatisfiable clause sets.')
prop('C26', 'A printed strategy reproduces the search it describes',
 'For every built-in strategy, the strategy description the prover prints can be read back, gives the same description again, and makes the prover select the same clauses as naming the strategy does. '
 'An unknown or malformed description is rejected.',
 ['configurations', 'inputs'], 'all built-in strategies and every parameter of a strategy',
 'strategies are only used through automatic mode.',
 ['HEURISTICS/che_hcb.c', 'HEURISTICS/che_proofcontrol.c', 'HEURISTICS/che_to_params.c', 'HEURISTICS/che_new_autoschedule.c', 'PROVER/eprover.c'],
 [('strategy printing and parsing', 'HEURISTICS/che_hcb.c')],
 ['printed strategies, search protocol'],
 level='model_checking', technique='exhaustive enumeration of strategies, parameter values, options and faults in descriptions on the real prover with a deterministic allocator',
 note='Every predefined strategy, every parameter value in use, 73 options, every line of a description altered 8 ways; printed text and complete trace of processed clauses compared.')
prop('C27', 'Higher-order unification, matching and normalization are correct',
 'In the higher-order prover, normalizing a term preserves its type and its meaning and is idempotent; every unifier or matcher delivered makes the two terms equal up to beta and eta conversion, with no bound variable escaping its binder. '
 'For patterns, unifiability and matchability are decided exactly.',
 ['inputs', 'histories'], 'all pairs of simply typed terms',
 'each example uses a few unifications only and never looks at one.',
 ['TERMS/cte_lambda.c', 'TERMS/cte_pattern_match_mgu.c', 'TERMS/cte_fixpoint_unif.c', 'TERMS/cte_ho_csu.c', 'TERMS/cte_ho_bindings.c', 'TERMS/cte_dbvars.c'],
 [('lambda normalization', 'TERMS/cte_lambda.c'), ('pattern unification and matching', 'TERMS/cte_pattern_match_mgu.c'), ('enumeration of unifiers', 'TERMS/cte_ho_csu.c')],
 ['normal forms, substitutions'],
 note='No harness was built: there is no independent finite oracle for full higher-order semantics that could be enumerated, and a reference implementation for normalization and pattern unification was out of reach in the time available.')
prop('C28', 'A run is a function of its input and options',
 'Running the prover again on the same problem with the same options gives the same output (verdict, proof, saturated set, statistics and messages, apart from times, resource figures and file names), regardless of what fresh memory happens to contain, of the environment, of the working directory, of how the input reaches it (file, standard input, include) and of where the output goes. '
 'This is claimed for a given order of memory addresses, on which some of E\'s tie-breaking depends, and for runs without strategy schedules.',
 ['inputs', 'configurations'], 'all inputs and all configurations without strategy schedules',
 'each problem is run once.',
 ['PROVER/eprover.c', 'CONTROL/cco_proofproc.c', 'CLAUSES/ccl_clausesets.c', 'BASICS/clb_memory.c', 'INOUT/cio_streams.c'],
 [('initialisation of every field before use', 'throughout'), ('input streams and output redirection', 'INOUT/cio_streams.c, INOUT/cio_output.c')],
 ['complete output'],
 level='model_checking', technique='exhaustive enumeration of problems, option sets and circumstances (memory contents, environment, directory, input and output channel) on the real prover',
 note='A preloaded allocator hands out addresses in order and fills fresh memory with a chosen byte; every run is compared with the first one line by line.')
prop('C29', 'Include directives add exactly the selected formulas',
 'Reading a file with include directives gives exactly the formulas of the file and, for each directive, those of the included file whose names are selected (all without a selection), each file being looked up in the documented places in the documented order. '
 'A missing or unreadable included file is an error; nothing is silently left out or read twice.',
 ['inputs', 'configurations'], 'all include graphs, selections and file locations',
 'the examples are single files.',
 ['CLAUSES/ccl_formulafunc.c', 'INOUT/cio_scanner.c', 'INOUT/cio_fileops.c', 'CLAUSES/ccl_formulasets.c'],
 [('stacked input streams and name selectors', 'INOUT/cio_scanner.c, CLAUSES/ccl_formulafunc.c')],
 ['formulas known to the prover'],
 level='model_checking', technique='exhaustive enumeration of include trees, selections and file locations on the real prover',
 note='Selections, places and file endings are enumerated; the formulas read are compared with a reference reading.')
prop('C30', 'Literal selection only ever selects what the calculus allows',
 'Every literal selection strategy, for every clause, either selects no literal or selects at least one negative literal, unless it is one of those documented as possibly incomplete; it never changes the literals of the clause. '
 'When literals are selected, no other literal counts as maximal for inferences, and selection takes place only for clauses within the configured limits on the numbers of literals.',
 ['inputs', 'configurations'], 'all clauses, all selection strategies',
 'only the handful of strategies picked by automatic mode are run.',
 ['HEURISTICS/che_litselection.c'],
 [('selection functions', 'HEURISTICS/che_litselection.c')],
 ['selected literals of a clause'],
 level='model_checking', technique='exhaustive enumeration of clauses and selection strategies on the real selection code',
 note='all 144 strategies x 2-4 orderings on all clauses with up to 3 literals of a pool of 24 and 4 literals of a pool of 12 (thorough: 4 of 24), selection limits and inherited literals for up to 2 literals')
prop('C31', 'Typed input is accepted exactly when it is well typed',
 'A typed problem is accepted exactly if every symbol is used according to its declared or default type, every declaration is consistent, and every argument of an equation or application has the required type; rejected input never leads to a verdict. '
 'Accepted problems keep their types: no step ever equates or instantiates across types.',
 ['inputs', 'configurations'], 'all typed problems',
 'the typed examples are all well typed.',
 ['TERMS/cte_typecheck.c', 'TERMS/cte_simpletypes.c', 'TERMS/cte_typebanks.c', 'TERMS/cte_signature.c', 'CLAUSES/ccl_tformulae.c'],
 [('type inference and checking', 'TERMS/cte_typecheck.c, TERMS/cte_signature.c')],
 ['acceptance or error, SZS status'],
 level='model_checking', technique='exhaustive enumeration of typed problems on the real prover against a reference type checker',
 note='Every combination of declarations and uses from a small grammar; acceptance compared with a reference type checker, accepted problems keep sorts.')
prop('C32', 'Temporary files never outlive the program',
 'Every temporary file a program creates is gone after it ends, whether it ends normally, by an error, or by a termination or interrupt signal (SIGTERM, SIGINT) at any point, and no file it did not create is ever removed or overwritten.',
 ['crash_points', 'fault_sequences'], 'every point of every run at which it can be ended other than by an uncatchable signal',
 'the examples create no temporary files.',
 ['INOUT/cio_tempfile.c', 'INOUT/cio_signals.c', 'INOUT/cio_fileops.c', 'CONTROL/cco_proc_ctrl.c'],
 [('registry of temporary files with clean-up on exit and signal', 'INOUT/cio_tempfile.c, INOUT/cio_signals.c')],
 ['directory contents'],
 level='model_checking', technique='exhaustive enumeration of points of disturbance (signals, failing calls) of the real programs, and of server sessions',
 note='checkproof at every point, e_ltb_runner at every fourth (thorough: every) point before or after an allocation or a call handling files or processes; sessions of the deduction server up to two (three) commands and two jobs.')
