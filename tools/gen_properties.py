import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
ST='crypto/stark/src/'
p('C01','A proof is one function of claim, witness and parameters',
 'Proving the same claim with the same witness and the same parameters yields exactly the same proof bytes, whatever the number of worker threads, however their work is interleaved, stolen or delayed, and whatever else runs in the process. Those bytes are the ones the documented non-interactive protocol prescribes: an independent sequential implementation of the documented steps produces the identical proof.',
 ['schedules','inputs','configurations'],'every satisfiable claim and witness, every supported parameter set, every pool size, and every interleaving of the worker threads',
 'The tests prove a handful of fixed claims on one pool size under whatever schedule the OS picks and pin a few digests; nothing varies the worker count or the interleaving, and no test needs more than one parallel chunk of constraint evaluation.',
 [ST+'prover.rs',ST+'algebraic_dag.rs',ST+'polynomial.rs',ST+'trace_table.rs',ST+'proof_of_work.rs','crypto/merkle-tree/src/tree.rs','algebra/primefield/src/fft/mod.rs','algebra/primefield/src/fft/radix_sqrt.rs'],
 [('prove: all parallel loops write disjoint data and join before use','crypto/stark/src/prover.rs'),('chunked constraint evaluation re-initialised per chunk','crypto/stark/src/prover.rs get_constraint_polynomials'),('public coin transcript','crypto/stark/src/channel.rs')],['bytes returned by prove'])
p('C02','Honest proofs are always produced and always accepted',
 'For every witness that satisfies the claim and every supported choice of blow-up factor, number of queries, folding layout and proof-of-work difficulty, proving finishes successfully and an independent verifier holding only the claim and the parameters accepts the proof. This holds under every scheduling of the prover and of verifiers running concurrently with it, and progress never depends on a particular thread being scheduled promptly. The proof is never longer than the size limit the claim announces, so a receiver may bound its buffer by it.',
 ['schedules','inputs','configurations'],'every satisfying witness, supported parameter set, worker count and interleaving of provers and verifiers',
 'Tests run a few recurrences with two or three parameter sets; completeness over the parameter space (repeated queries, short folding layouts, single column, high degrees, offsets that wrap) and over schedules is not sampled.',
 [ST+'prover.rs',ST+'verifier.rs',ST+'channel.rs',ST+'constraints.rs'],
 [('prove/verify transcript agreement','crypto/stark/src/channel.rs'),('duplicate query handling','crypto/stark/src/verifier.rs verify'),('FRI folding','crypto/stark/src/prover.rs perform_fri_layering')],['result of prove and verify'])
p('C03','A proof damaged in transit is rejected with an error, never a crash',
 'Whatever a network or disk does to a proof on its way to the verifier (bit flips, truncation at any byte, extension, zeroed, dropped, duplicated, swapped or spliced segments, or replacement by arbitrary bytes), the verifier answers with an error unless the received bytes are themselves a valid proof of the claim under its own parameters. It never accepts anything else, and it always answers: no damaged proof makes it crash, panic or run without bound.',
 ['fault_sequences','inputs','configurations'],'every sequence of transport faults applied to every honest proof, for every claim and parameter set',
 'The tests only ever verify untouched proofs; no test flips, cuts or extends one.',
 [ST+'verifier.rs',ST+'channel.rs','crypto/merkle-tree/src/proof.rs','crypto/merkle-tree/src/commitment.rs'],
 [('every proof byte is absorbed by the transcript or authenticated by a commitment','crypto/stark/src/verifier.rs'),('proof must be consumed exactly','crypto/stark/src/channel.rs at_end')],['result of verify'])
p('C04','A proof convinces only for its own claim and security parameters',
 'A proof that is replayed, misrouted or reordered to a verifier of another session is accepted only if it satisfies every requirement of that verifier\'s own claim, transcript seed, public inputs, query count, folding layout, blow-up factor and proof-of-work difficulty. In particular a proof made for one claim is never accepted for a claim with a different seed, public input, constraint or trace size, and a proof made with weaker parameters is never accepted by a verifier that demands stronger ones.',
 ['histories','fault_sequences','configurations'],'every history of concurrent sessions over a network that replays, duplicates, reorders and misroutes proofs between them',
 'No test verifies a proof against any claim or parameters other than the ones it was made for.',
 [ST+'verifier.rs',ST+'channel.rs',ST+'constraints.rs',ST+'proof_of_work.rs'],
 [('channel seeded by claim','crypto/stark/src/channel.rs initialize'),('out-of-domain consistency check','crypto/stark/src/verifier.rs'),('difficulty bound into the challenge','crypto/stark/src/proof_of_work.rs')],['result of verify'])
p('C05','A cheating prover is caught whichever single rule it breaks',
 'A prover that deviates from the protocol at any step while keeping the rest of its transcript consistent (false trace or constraint evaluations, commitments to unrelated or high-degree data, openings that do not match a commitment, inconsistent folds, a wrong final polynomial, chosen challenges or query positions, conflicting answers to repeated queries, missing work) is rejected whenever the documented verification rules reject it. Every queried position and every documented check is load-bearing: none can be skipped for any query, layer or column.',
 ['fault_sequences','inputs','configurations'],'every deviation of a Byzantine prover at every protocol step, for every claim, parameter set and query pattern',
 'There are no negative tests of the verifier at all; only an adversarial prover that recomputes a consistent transcript around each deviation reaches the individual checks.',
 [ST+'verifier.rs',ST+'channel.rs',ST+'proof_of_work.rs','crypto/merkle-tree/src/proof.rs'],
 [('Merkle openings of trace, constraint and every FRI layer','crypto/stark/src/verifier.rs'),('FRI fold consistency and final polynomial','crypto/stark/src/verifier.rs'),('out-of-domain check','crypto/stark/src/verifier.rs'),('proof of work','crypto/stark/src/proof_of_work.rs')],['result of verify'])
p('C06','Proof of work finds the least valid nonce and its difficulty is enforced',
 'The proof-of-work search returns the smallest nonce meeting the requested difficulty, for every number of worker threads and every interleaving or delay of them, and it always terminates once such a nonce has been found. The verifier accepts a nonce exactly when it meets the difficulty for that transcript.',
 ['schedules','inputs','configurations'],'every challenge, difficulty, worker count and interleaving, including workers stalled between finding and publishing a nonce',
 'One fixed challenge and the thresholds around it are tested on whatever schedule the OS chose; the races between threads that find different nonces almost never occur at low difficulty.',
 [ST+'proof_of_work.rs',ST+'prover.rs',ST+'verifier.rs'],
 [('atomic minimum over threads and stop rule','crypto/stark/src/proof_of_work.rs solve/fetch_min'),('verify','crypto/stark/src/proof_of_work.rs verify')],['nonce inside the proof'])
p('C07','Vector commitments are schedule independent and match their definition',
 'The root of a vector commitment and every opening taken from it depend only on the committed values: they are the same for every number of worker threads, every interleaving, and every setting of how many lower layers are kept in memory, and equal the textbook binary hash tree over the leaf hashes. Sizes that are not supported are refused with an error.',
 ['schedules','inputs','configurations'],'every leaf vector, number of skipped layers, worker count and interleaving of the per-layer parallel hashing',
 'Tests pin one tree and sample openings verified by the same code on one schedule; sizes stay below what makes the layers split across workers in hostile orders.',
 ['crypto/merkle-tree/src/tree.rs','crypto/merkle-tree/src/index.rs','crypto/merkle-tree/src/node.rs','crypto/merkle-tree/src/vector_commitment.rs','crypto/hash/src'],
 [('layer by layer parallel hashing with a join between layers','crypto/merkle-tree/src/tree.rs'),('recomputation of skipped layers','crypto/merkle-tree/src/tree.rs node_hash')],['commitment hash','opened proof hashes'])
p('C08','An accepted opening shows only values that were really committed',
 'A verifier holding a commitment accepts an opening of any set of positions, in any order and with repetitions, when it is honest, and after any loss, duplication, reordering or corruption of the leaves, positions or hashes in transit it accepts only if every leaf it was given is the committed value at that position. Malformed openings (wrong number of hashes, positions out of range, conflicting repeated leaves) are answered with an error, never a crash.',
 ['fault_sequences','inputs'],'every committed vector, every set of opened positions and every sequence of transport faults on the opening',
 'Tests check honest openings and one changed root; tampering is not explored.',
 ['crypto/merkle-tree/src/proof.rs','crypto/merkle-tree/src/commitment.rs','crypto/merkle-tree/src/index.rs'],
 [('root reconstruction','crypto/merkle-tree/src/proof.rs verify'),('proof size','crypto/merkle-tree/src/commitment.rs proof_size')],['result of Proof::from_hashes and Proof::verify'])
p('C09','Parallel Fourier transforms equal the definition under every schedule',
 'Forward, inverse and shifted transforms and low-degree extensions give the evaluations (or coefficients) that the definition of the discrete Fourier transform over the prime field prescribes, in the documented output order, for every power-of-two length. The result is the same for every number of worker threads and every interleaving, also when several transforms run at the same time.',
 ['schedules','inputs','configurations'],'every input vector and power-of-two length, every worker count and interleaving',
 'Tests compare against a reference on a pool of fixed size; the chunking depends on the pool size and on lengths the tests rarely combine.',
 ['algebra/primefield/src/fft/mod.rs','algebra/primefield/src/fft/radix_sqrt.rs','algebra/primefield/src/fft/transpose.rs','algebra/primefield/src/fft/recursive.rs','algebra/primefield/src/fft/small.rs',ST+'polynomial.rs',ST+'trace_table.rs'],
 [('radix sqrt decomposition over parallel chunks','algebra/primefield/src/fft/radix_sqrt.rs'),('shift factors restarted per chunk','algebra/primefield/src/fft/mod.rs clone_shifted')],['transformed slices','DensePolynomial::low_degree_extension'])
p('C10','Allocator statistics stay exact under concurrency and failed allocations',
 'At every quiescent point the logging allocator reports exactly the live bytes, the total bytes and number of successful allocations, the largest single allocation and the true high-water mark of live bytes, for every interleaving of allocating and freeing threads. Refused or failed allocations return null and change no statistic, live bytes never appear negative, and the high-water mark is never below the live bytes.',
 ['schedules','histories','fault_sequences'],'every history of concurrent allocations, zeroed allocations, reallocations, frees and injected allocation failures',
 'The crate has no concurrent tests and never sees an allocation fail.',
 ['utils/logging-allocator/src/logging_allocator.rs'],
 [('relaxed atomic counters and compare-exchange maximum','utils/logging-allocator/src/logging_allocator.rs')],['accessor methods of the allocator'])
p('C11','The memory-mapped vector behaves like a bounded vector under faults',
 'For every sequence of operations the memory-mapped vector holds exactly the elements a standard vector with the same fixed capacity would hold, refuses to grow beyond its capacity, and drops every element it was given exactly once, at the moment the operation that removes it says. Panics raised by user code (while cloning or dropping an element or iterating) and failures of the operating system to map memory never make it lose this: no element is dropped twice, leaked, or read uninitialised, and the failing operation fails cleanly.',
 ['histories','fault_sequences','crash_points'],'every history of operations with panics injected at any clone, drop or iterator step and mapping failures at any allocation',
 'The unit tests push a few integers; no test removes and re-adds elements that own memory or lets a clone panic.',
 ['utils/mmap-vec/src/mmap_vec.rs'],
 [('length bookkeeping before element operations','utils/mmap-vec/src/mmap_vec.rs'),('truncate modelled on Vec::truncate','utils/mmap-vec/src/mmap_vec.rs')],['slice contents, length, element drop counts'])
p('C12','Resource failures never yield a wrong proof and never poison later ones',
 'If memory mapping, memory allocation or a worker task fails at any point while proving, the call fails visibly (a refused heap allocation may end the process); it never returns a proof that differs from the fault-free one, and no call hangs. After a failure that the process survives, the same process, with the same worker pool and shared tables, still produces the correct proof for the next request.',
 ['crash_points','fault_sequences','schedules'],'every failing mapping or task panic at every point of the prover, under every interleaving',
 'Tests never inject a failure.',
 [ST+'prover.rs','utils/mmap-vec/src/mmap_vec.rs','crypto/merkle-tree/src/tree.rs'],
 [('failures propagate as panics through the pool join','crypto/stark/src/prover.rs'),('no global mutable state besides one-time tables','algebra/primefield/src')],['result of prove after faults'])
p('C13','The prover never hands out a proof for an unsatisfied claim',
 'When the execution trace does not satisfy the claim, whatever cell is wrong and however the corruption came about (bad witness, or a stored value damaged before proving), proving returns a failure and no proof. It never reports success, under any parameters or schedule.',
 ['inputs','fault_sequences','configurations'],'every corruption of every constrained cell of every trace, every parameter set',
 'No test proves a false statement.',
 [ST+'prover.rs',ST+'verifier.rs'],
 [('self verification before returning','crypto/stark/src/prover.rs prove'),('out-of-domain check','crypto/stark/src/verifier.rs')],['result of prove'])
p('C14','Verifier-contract generation survives I/O faults without silent damage',
 'Generating the on-chain verifier either reports success, and then the output directory holds exactly the complete files that a fault-free run writes, or reports an error; creation failures, short or interrupted writes, full disks and I/O errors at any point never crash it and never go unreported. After a crash at any point, running it again produces the same complete files, and the content depends only on the claim and parameters.',
 ['crash_points','fault_sequences','configurations'],'every I/O fault or crash at every file operation of the generator, for every system it supports',
 'The tests do not generate files at all or only on a healthy disk.',
 [ST+'solidity_verifier.rs'],
 [('error propagation from every file operation','crypto/stark/src/solidity_verifier.rs generate')],['return value of generate and directory content'])
p('C15','Signatures survive honest transport only and never crash the verifier',
 'A signature produced for a message by a key verifies under that key, is the same every time and for every thread that computes it (also when several threads use the signing tables for the first time at once). No two different messages are signed with the same one-time nonce. A verifier receiving a signature, message or public key altered, swapped with another session, or chosen by an attacker answers no without crashing, the documented negated-component variant excepted.',
 ['schedules','fault_sequences','inputs'],'every key, message, interleaving of first use and sequence of transport faults on signature, digest and key',
 'Tests verify honest signatures single threaded and do not feed degenerate or damaged signatures.',
 ['crypto/elliptic-curve-crypto/src/private_key.rs','crypto/elliptic-curve-crypto/src/public_key.rs','crypto/elliptic-curve-crypto/src/signature.rs','algebra/elliptic-curve/src/wnaf.rs'],
 [('deterministic nonce','crypto/elliptic-curve-crypto/src/private_key.rs sign'),('verification equation','crypto/elliptic-curve-crypto/src/public_key.rs verify'),('lazily initialised generator table','crypto/elliptic-curve-crypto/src/private_key.rs')],['result of sign and verify'])
p('C16','Concurrent proving and verifying sessions do not disturb each other',
 'Any number of proving, verifying, committing and transforming sessions running at the same time in one process, on shared or separate worker pools, each give the result they would give alone. Sharing a pool never deadlocks and every session finishes within a bounded number of scheduling steps once no thread is stalled.',
 ['schedules','histories'],'every interleaving of every mix of concurrent sessions, including nested use from inside the pool',
 'Tests run as independent processes or threads with whatever overlap the OS gives and never compare against the isolated result.',
 [ST+'prover.rs',ST+'verifier.rs','crypto/merkle-tree/src/tree.rs','algebra/primefield/src/fft/mod.rs'],
 [('no shared mutable state between sessions','crypto/stark/src'),('work stealing pool','rayon')],['results of all sessions'])
p('C17','The exported on-chain proof carries the verified proof unchanged',
 'Re-encoding a valid proof for the on-chain verifier preserves every commitment, opened value, authentication hash, nonce and final polynomial exactly as the verified proof carries them and in the documented layout. It gives the same output on every run.',
 ['inputs','configurations'],'every valid proof of every claim and parameter set',
 'No test compares the exported form with the proof.',
 [ST+'solidity_seralizer.rs'],[('replay of the transcript while exporting','crypto/stark/src/solidity_seralizer.rs proof_serialize')],['returned JSON'])
p('C18','Field, big-integer and curve arithmetic obey their algebraic laws',
 'Addition, multiplication, inversion, exponentiation, square roots, division and conversion on 256-bit integers, both prime fields and curve points agree with the mathematical definition for every operand, including unreduced, zero and boundary values.',
 ['inputs'],'every operand pair','Property tests sample operands.',
 ['algebra/u256/src','algebra/primefield/src','algebra/elliptic-curve/src'],[('Montgomery arithmetic','algebra/primefield/src/prime_field.rs')])
p('C19','Encoded values arrive as sent or are refused',
 'Any big integer, field element, scalar, curve point, key or signature that one party encodes (readable text, compact binary, SCALE, or decimal text) decodes at the other party to exactly the value sent. After the transport has cut, extended, flipped, replaced or spliced the encoding, the receiver gets either an error or exactly the one canonical value the received encoding denotes: never a crash, never a value that was silently shortened, wrapped around or reduced.',
 ['inputs','fault_sequences'],'every value, every encoding and every sequence of transport faults applied to the encoding','Tests round-trip sampled values and decode no damaged message.',
 ['algebra/u256/src/conversion.rs','algebra/u256/src/encoding.rs','algebra/primefield/src/serde.rs','algebra/primefield/src/parity_codec.rs','algebra/elliptic-curve/src/curve.rs','crypto/elliptic-curve-crypto/src'],[('Serialize, Deserialize, Encode and Decode implementations','algebra/u256/src/encoding.rs')])
p('C20','Composing constraint components preserves what they prove',
 'Combining components side by side, one after another or folded, to any depth, gives a system that holds exactly when every part holds on its own share of the table (parts stacked one after another share one set of constraints, so these do not depend on the claim). The combined trace consists of the traces of the parts, each cell written exactly once; an honest combination is provable and its proof is accepted for the combined claim and refused for another one. If the store that receives the trace loses, tears, repeats or misdirects a write, checking and proving fail unless every part still holds.',
 ['inputs','configurations','fault_sequences','schedules'],'every component tree, witness and sequence of store faults, under every interleaving of the prover','Tests compose a few small components of one kind, on a reliable table, and only run the checker.',
 ['crypto/stark/src/component'],[('fold, horizontal, vertical, mapped','crypto/stark/src/component'),('PolynomialWriter seam','crypto/stark/src/component/mod.rs')],['trace table, results of check, prove and verify'])
p('C21','How a constraint is written or evaluated never changes its value',
 'However a constraint expression is written, shared, simplified, tabulated or cut into chunks for the worker threads, the values the prover commits to and opens are those of direct evaluation of the expression at every point of the domain. Prover and verifier agree on the value, whatever the domain size, the number of workers and the order in which chunks are evaluated.',
 ['inputs','schedules','configurations'],'every expression and rewriting of it, domain size, chunk and interleaving','Tests cover fixed expressions on one small domain, single chunk.',
 ['crypto/stark/src/algebraic_dag.rs','crypto/stark/src/rational_expression.rs','crypto/stark/src/prover.rs'],[('AlgebraicGraph','crypto/stark/src/algebraic_dag.rs'),('parallel chunks','crypto/stark/src/prover.rs')],['constraint commitment and opened values in the proof'])
p('C22','The constraint checker names a real violation or there is none',
 'For constraints written as one fraction, checking a trace reports success exactly when every constraint holds on every row it applies to; otherwise it names the first row and constraint that fail. Asking about one constraint on one row answers for exactly that row and constraint. This holds for intact traces and for traces damaged in storage, for any number of threads checking at once.',
 ['inputs','fault_sequences'],'every system, trace, damage to the trace, row and constraint','Tests damage one cell of one recurrence and ask about two rows.',
 ['crypto/stark/src/constraint_check.rs','crypto/stark/src/rational_expression.rs','crypto/stark/src/traits.rs'],[('check_constraints','crypto/stark/src/constraint_check.rs'),('check_specific_constraint','crypto/stark/src/constraint_check.rs')],['results of check_constraints, check and check_specified'])
p('C23','Random values are the ones asked for, whatever the generator does',
 'A big integer drawn from a range lies in that range, and a randomly drawn field element is a reduced element; a request that nothing can satisfy (an empty range) is refused, not answered with some value or an endless loop. The same request to a generator in the same state gives the same value, in every thread; a generator that fails makes the request fail visibly. With a healthy generator every value of a small range turns up equally often and every request is answered after a bounded number of draws; a generator that is stuck or loses bits for a while never leads to a value outside the range, and drawing resumes when it recovers.',
 ['inputs','fault_sequences','schedules'],'every range and every behaviour of the generator: stuck, repeating, biased, failing at any draw','Tests draw a handful of values from a healthy generator.',
 ['algebra/u256/src/rand.rs','algebra/primefield/src/rand.rs'],[('rejection sampling','algebra/u256/src/rand.rs'),('uniform field elements','algebra/primefield/src/rand.rs')],['values returned by gen, gen_range and Uniform sampling'])
p('C24','Generated contracts compute what the native verifier computes',
 'For every claim and parameter set the generator supports, the contracts it writes, deployed and called with any field values for the opened trace, the challenges and the public inputs, compute the same combined constraint value at the out-of-domain point as the native verification rules, and their tables name the same columns, rows, degree and parameters. The answer does not depend on the order of calls, on earlier calls, or on calls that failed.',
 ['inputs','configurations','fault_sequences'],'every supported claim, every opening and challenge, every sequence of calls and call failures','No test runs a generated contract against the verifier; the recorded ones cover one recurrence.',
 [ST+'solidity_verifier.rs','crypto/stark/assets'],[('memory layout and constraint assembly','crypto/stark/src/solidity_verifier.rs autogen_oods_contract'),('periodic polynomials','crypto/stark/src/solidity_verifier.rs'),('templates','crypto/stark/assets')],['text of the generated contracts and the values their assembly computes'])
p('C25','The on-chain verifier accepts valid proofs and nothing else',
 'The on-chain verifier, deployed together with the contracts generated for a claim (blowup 16, FRI steps of at most 3 with at least one layer), accepts every exported honest proof, also when queries coincide, and tells its caller so. It rejects whatever the native verification rules reject: proofs of cheating provers, proofs in which a value was changed, openings, out-of-domain values or final coefficients were left out or added, numbers that are not reduced, and proofs for which a called contract fails. The verdict does not depend on what was submitted before.',
 ['inputs','configurations','fault_sequences','histories'],'every claim, every deviation of the prover, every change in transit and every failing call, in every order of submission','The recorded tests submit one kind of honest proof and need a chain to run.',
 ['crypto/stark-verifier-ethereum/contracts/stark_verifier.sol','crypto/stark-verifier-ethereum/contracts/fri.sol','crypto/stark-verifier-ethereum/contracts/merkle.sol','crypto/stark-verifier-ethereum/contracts/default_cs.sol','crypto/stark-verifier-ethereum/contracts/public_coin.sol','crypto/stark-verifier-ethereum/contracts/proof_of_work.sol','crypto/stark-verifier-ethereum/contracts/primefield.sol','crypto/stark-verifier-ethereum/contracts/utils.sol'],
 [('verification rules','crypto/stark-verifier-ethereum/contracts/stark_verifier.sol verify_proof'),('FRI folding and openings','crypto/stark-verifier-ethereum/contracts/fri.sol'),('out-of-domain adjustment','crypto/stark-verifier-ethereum/contracts/default_cs.sol')],['verdict of verify_proof'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
