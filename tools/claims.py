# property -> (technique, level_note)
CLAIM = {
"C01": ("path-sensitive MIR dataflow (check-before-effect over lock guards, listeners and &mut state), provenance of rebuilt operations, call-graph dominance",
        "Entry points are discovered by visibility and parameter types. Trusts ed25519-dalek and bincode, and that shared state is only changed through lock guards or &mut self."),
"C02": ("path-sensitive interprocedural MIR dataflow with call-graph dominance",
        "Every path of the analysed functions up to loop abstraction; trusts rustc's MIR, the models of std collections and iterators in khv/sim.py, and collision resistance of hashes."),
"C03": ("path-sensitive interprocedural MIR dataflow with call-graph dominance",
        "Every path of the analysed functions up to loop abstraction; trusts rustc's MIR, the models of std collections and iterators in khv/sim.py, and collision resistance of hashes."),
"C04": ("path-sensitive MIR dataflow over the replay with allocation-site collections, field-write effects and call-graph dominance",
        "Loops are abstracted by one representative element and an exhaustion fact; collection contents are tracked by membership facts only. Trusts that reverse_topsort yields each operation after what it depends on (its dependency inputs are checked, its sort is not)."),
"C10": ("path-sensitive MIR dataflow over the value of the key-tree state (what changed, from which operation, under which facts), loop-iteration obligations, field-write effects with call-graph dominance",
        "Loops are abstracted by one representative element and an exhaustion fact. Trusts that the topological sort returns every ancestor in causal order, and std collections as modelled in khv/sim.py."),
"C11": ("path-sensitive MIR dataflow with per-function contracts (what each function makes, applies and announces), composed over the call graph",
        "Operations are followed as values from the signing or applying call to the listener call, through results, arguments, collections and loops. Failure returns are not obliged to announce. Received delegations and prekey operations are outside the property."),
"C15": ("path-sensitive MIR dataflow following every event through the ingestion loops to each return; per-function contracts over the call graph for what a successful receive means; effect scan of everything that changes the pending list",
        "Events are one symbol; loops are abstracted by one representative element. Concurrency is covered by the rules that pending events are only removed late, only those replayed, and under the lock that re-adds the rest; the executor and the mutex are trusted."),
"C05": ("worklist-algorithm contract by path-sensitive MIR dataflow: provenance of the access entered and carried (substitution of the queued entry into the entered minimum), obligations at the end of each worklist entry, pass-through and reporter contracts",
        "Every path of the walk and of the functions reporting it, up to loop abstraction by one representative entry; termination of the walk is not claimed. Trusts std collections as modelled and Ord::min."),
"C13": ("type-driven discovery of content-addressed stores, field-write effect scan, and path-sensitive MIR dataflow of every writer: the key of each insertion is the hash term of the value inserted",
        "Values behind Arc are immutable by ownership (no Arc::get_mut or make_mut, no interior mutability considered); trusts std collections as modelled and collision resistance of blake3."),
"C09": ("call-graph discovery of every cipher call, path-sensitive MIR dataflow with callers inlined until the nonce is known; term comparison of the key derivation between encryption and decryption; whole-value absorption analysis of the hashes",
        "Every path of the functions that encrypt, decrypt or derive keys, loops abstracted by one representative. Trusts blake3, x25519 and the AEAD; code outside the workspace that calls the raw SymmetricKey API chooses its own nonces."),
"C18": ("Interprocedural sharing (alias) analysis over MIR cut by types with interior mutability; all-path evaluation of the transaction functions",
        "Every Fork/ForkAsync implementation: no label of the original survives in the result except signer and random source; transactions give the closure only the fork, merge exactly it on success and nothing on failure"),
"C17": ("abstract interpretation of MIR: value provenance (constants, picked prekeys), guard dominance for prekey writes, field-effect and call-graph completeness",
        "Public's id and keys are constants; every prekey picked, and every (id, key) pair that reaches the key-agreement group's add, is the well-known key when the individual is Public; prekey writes are guarded."),
"C16": ("type-directed effect discovery plus path-sensitive MIR evaluation of every removal and insertion of the registries, climbing to callers",
        "Sequential histories and abandoned operations; two concurrent operations that both look up an identifier before either inserts it are not excluded. External callers that use the registries' accessors directly are trusted."),
"C14": ("path-sensitive MIR dataflow: the archive, and the instance made from it, as symbolic terms compared field by field with the state they stand for; loop-iteration and exhaustion obligations; type-closure completeness of serialisers and clones",
        "Every path of saving, loading and ingesting up to loop abstraction by one representative element. Trusts serde's and third-party serialisers, and that the topological sort returns every operation its exploration collected (the exploration starts are checked)."),
"C08": ("whole-program taint analysis over MIR: value-flow graph of locals, fields, captures and results of all crates, from key bytes, serialised keys, cipher buffers and decrypted bytes to every formatting, tracing, output and panic sink",
        "every flow found by the graph, over-approximated (flow-insensitive except around encryption); the application's own Debug of its content type T and error payload types are outside"),
"C07": ("lock-order analysis over MIR: guard lifetimes by dataflow in every function, acquisitions through the call graph, lock classes by protected type, same-place tracing of locks through parameters, captures and fields",
        "all functions and paths; group and document locks among themselves follow the runtime membership graph and are one class; a lock implementation inside the application's own listener or signer is outside"),
"C19": ("path-sensitive MIR dataflow over the value of the key-tree state at every return and at every call of the signer, creators discovered in the call graph",
        "Covers failing and cancelled signatures of every public method of Cgka that signs; trusts ownership (BeeKem methods change only the tree they are called on)."),
}
NA = {
"C06": "who ends up with a document's key depends on the runtime membership graph before and after each change (differences of reader sets); the call sites that must extend or shrink the key group can be seen statically, but which ones owe it for whom cannot, without alarming on correct code",
"C12": "whether a fold over an unordered collection is order-insensitive is a semantic property of the fold; a sound taint analysis from hash-table iteration to hashes, orders and signatures alarms on the many correct folds here",
"C20": "quantifies over delivery orders and the algebra of derived keys through the key tree; no static abstraction in reach decides equality of computed keys",
"C21": "a secrecy statement over all computations of a removed member; which secrets remain derivable depends on runtime tree contents that no static argument here bounds",
"C22": "confluence of the replay over all sets and orders of operations is a semantic property of runtime histories; what each replay step may admit is claimed as C04",
"C23": "absence of panics needs the runtime invariants behind each expect/index (tree shapes, history invariants), which cannot be bounded statically without alarming on correct code",
}
