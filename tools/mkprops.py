"""Writes /verif/properties.jsonl from the table below (keeps the JSON well-formed)."""
import json, os
KC = "keyhive_core/src/"
GS, GR, KH = KC + "principal/group/state.rs", KC + "principal/group.rs", KC + "keyhive.rs"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Received operations are signature-checked before they have any effect",
  "Every delegation, revocation, group-key operation, prekey operation and contact card that arrives from outside is signature-checked before it changes any local state or creates a local principal. If the check fails, the operation is refused and nothing is changed. (The instance's own archive is trusted.) The check covers the exact serialized payload under the key of the issuer the operation names.",
  ["inputs", "histories"], "every received operation, on every path through the receiving code, for every prior local state",
  "A forged operation can be crafted for each of the many entry points and prior states; tests use honest peers and sample a few forgeries at one entry point.",
  [KH, KC + "principal/individual.rs", KC + "cgka.rs", "keyhive_crypto/src/signed.rs", "keyhive_crypto/src/verifiable.rs"],
  [("receive_prekey_op, receive_contact_card, receive_cgka_op, receive_delegation, receive_revocation, receive_static_event", KH),
   ("Signed::try_verify", "keyhive_crypto/src/signed.rs"), ("PrekeyState / Individual::receive_prekey_op", KC + "principal/individual.rs")],
  ["return value of the receive functions", "registries of individuals, groups and documents after a refused operation"])

p("C02", "Delegations cannot exceed or fake the authority they derive from",
  "A delegation enters a group's history only if it belongs to that group, a root delegation is issued by the group's own key, the access it grants is not greater than the access of any delegation in its proof chain, and each delegation in the chain is signed by the delegate of the delegation it cites as proof or by a transitive member of that delegate holding at least the granted access. Locally created delegations never grant more access than their author's own proof.",
  ["inputs", "histories"], "every received or locally created delegation and every shape and length of proof chain",
  "Escalation needs adversarial proof chains of arbitrary depth and group nesting; tests only build honest ones.",
  [GS, GR, KC + "access.rs", KC + "principal/group/delegation.rs"],
  [("GroupState::add_delegation", GS), ("is_transitive_member_of", GS), ("Delegation::proof_lineage", KC + "principal/group/delegation.rs"),
   ("Group::add_member_with_manual_content", GR), ("order of Access", KC + "access.rs")],
  ["acceptance or refusal of a delegation", "members of a group"])

p("C03", "Revocations are accepted only with authority over what they revoke",
  "A revocation enters a group's history only if it targets a delegation of that group and is issued either by the group's own key, or on the strength of a proof that is itself a valid delegation chain of the same group. With such a proof, the issuer must be the proof's issuer or delegate, or a transitive member of the proof's delegate with at least the revoked access; a proof that neither is nor precedes the revoked delegation only counts through such membership.",
  ["inputs", "histories"], "every received revocation, every proof and every group structure",
  "A forged revocation needs an adversary combining proofs of other groups or other people's delegations, which tests never construct.",
  [GS, GR], [("GroupState::add_revocation", GS), ("is_transitive_member_of", GS), ("Group::rebuild", GR)],
  ["acceptance or refusal of a revocation", "members of a group"])

p("C04", "The membership view is always the replay of the accepted history",
  "Who is a member of a group is decided only by replaying its accepted delegations and revocations: every delegation or revocation added to the history is followed by a replay before success is reported, and nothing else adds members. The replay admits no delegation that has been revoked, that lacks a live (or equivalent replacement) proof or that is an unsigned-for root, and a revocation removes the revoked delegation together with everything that depends on it.",
  ["histories"], "every history of delegations and revocations, in every order of arrival",
  "The set of histories is unbounded; tests replay a few small ones.",
  [GR], [("Group::rebuild", GR), ("Group::receive_delegation / receive_revocation", GR)],
  ["members and capabilities of a group"],
  [("members", "materialised view", GR), ("active_revocations", "revocations in force", GR)])

p("C05", "Access through nested groups is never greater than any link on its path",
  "The access a principal is reported to hold on a group or document through nested groups is the greatest, over the membership paths leading to it, of the least access found along that path. In particular no link of a path is ever ignored.",
  ["histories", "inputs"], "every nesting depth and shape of the membership graph, including diamonds and cycles",
  "Depth and shape are unbounded and the traversal order depends on hash order; tests use depth at most two.",
  [GR, KC + "principal/document.rs", KC + "principal/membered.rs"], [("Group::transitive_members", GR)],
  ["transitive members reported for a group or document"])

p("C06", "Document keys go only to readers, and membership changes reach the keys",
  "The key-agreement group of a document gains a person only when they are given at least read access to that document, directly or through a group that itself has read access to it. Adding a reader adds their keys to the key-agreement group, removing a member removes from it everyone who thereby loses read access, and a failure to do so is reported to the caller rather than ignored.",
  ["histories", "programs"], "every sequence of membership changes on groups and documents",
  "It couples two state machines over all histories and nesting of groups into documents; tests check a few direct additions.",
  [KH, KC + "principal/document.rs"], [("Keyhive::add_member / revoke_member", KH), ("Document::add_member / add_cgka_member / remove_cgka_member", KC + "principal/document.rs"), ("Access::is_reader", KC + "access.rs")],
  ["membership of a document's key-agreement group"])

p("C07", "Concurrent use never deadlocks on the internal locks",
  "No operation waits for an internal lock that it already holds, and different operations never take the locks of the active agent, its prekeys, the random source, the registries, the stores, the pending events, individuals, and groups and documents in conflicting orders. So no set of concurrently running public operations can wait for each other in a circle over these. (Groups and documents that are members of each other are locked along the membership graph: the order among those is outside.)",
  ["schedules"], "every interleaving of every set of concurrently running public operations",
  "Tests run one operation at a time; a deadlock needs a specific branch or interleaving.",
  [KH, GR, KC + "principal/document.rs", KC + "principal/active.rs"], [("futures Mutex guards over individuals, groups, docs, delegations, revocations, active, csprng, pending events", KH)],
  ["completion of any public async operation"])

p("C08", "Secrets and plaintext never reach logs, debug output or error messages",
  "No bytes of a private key, symmetric key, derived key or Diffie-Hellman result, and no bytes of content that is encrypted or decrypted, are written to tracing spans or events, to debug or display output, or into error messages: on every path, at every log level, before encryption and after decryption. (A secret key can be formatted in hexadecimal, which has to be asked for in so many words; the system itself never does.)",
  ["inputs", "configurations"], "every operation at every log level, and every value of a type holding secrets",
  "Tests do not inspect log output at every level, and every new derive or span adds a place to leak from.",
  ["keyhive_crypto/src/symmetric_key.rs", "keyhive_crypto/src/share_key.rs", "keyhive_crypto/src/signer/memory.rs", "beekem/src/pcs_key.rs", "beekem/src/secret_store.rs", KC + "crypto/envelope.rs"],
  [("Debug / Display implementations", "keyhive_crypto/src"), ("tracing instrument attributes and events", "all crates")],
  ["log output, formatted values, errors"])

p("C09", "Encryption nonces are derived from the content they protect",
  "Every encryption uses a nonce that is deterministically derived from the secret its key is made of, the document and the whole plaintext being encrypted; that nonce is stored with the ciphertext and is the one used to decrypt it. Content keys are derived from the document's key material and bound to everything that identifies the content: its reference, its predecessors and the key epoch; the same binding is used for encryption and for decryption.",
  ["inputs"], "every plaintext, key and document",
  "Reuse of a nonce for two plaintexts shows up only for specific pairs of inputs; round-trip tests pass with a constant nonce.",
  ["keyhive_crypto/src/siv.rs", "keyhive_crypto/src/symmetric_key.rs", "beekem/src/cgka.rs", "beekem/src/pcs_key.rs", "beekem/src/keys.rs", "beekem/src/encrypted.rs", KC + "principal/document.rs"],
  [("Siv::new", "keyhive_crypto/src/siv.rs"), ("PcsKey::derive_application_secret", "beekem/src/pcs_key.rs"), ("SymmetricKey::try_encrypt", "keyhive_crypto/src/symmetric_key.rs")],
  ["nonce and key of each ciphertext"])

p("C10", "Group-key operations are applied causally, once, and recorded",
  "A key-agreement operation received from a peer changes the key tree only if all of its causal predecessors have been applied and it has not been applied before. Every operation that is applied or created is recorded in the operation history in the same step, so that replicas agree on which operations the tree reflects. A local or received operation never acts on a tree that still misses concurrent operations waiting to be replayed.",
  ["histories", "fault_sequences"], "every order of delivery, duplication and concurrency of operations",
  "Orders of delivery are unbounded; tests deliver operations mostly in order.",
  ["beekem/src/cgka.rs", "beekem/src/operation.rs"], [("Cgka::merge_concurrent_operation / apply_operation / add / remove / update", "beekem/src/cgka.rs"), ("CgkaOperationGraph", "beekem/src/operation.rs")],
  ["key tree and operation graph after each operation"])

p("C11", "Every applied change is announced to the listener, and only applied changes are",
  "Whenever a local call succeeds in creating a delegation, a revocation, a prekey operation or a group-key operation, the event listener is told about that very operation before the call reports success (the initial prekeys of a new identity excepted: its contact card carries them). The listener is likewise told about every received revocation and group-key operation once it has been applied. The listener is never told about an operation that was refused.",
  ["programs", "histories"], "every public operation, on every success and failure path",
  "Applications persist and sync from these events, and one missed event on a rarely taken path is silent loss; tests check few paths.",
  [KH, GR, KC + "principal/document.rs", KC + "principal/active.rs", KC + "listener"], [("MembershipListener / PrekeyListener / CgkaListener calls", KH)],
  ["sequence of events seen by a listener"])

p("C12", "Replicated decisions do not depend on hash-table order or on the platform",
  "Values that replicas must agree on - hashes, signatures, serialized operations, order comparisons, topological orders and the choice of prekey - are computed without depending on the iteration order of an unordered collection or on local randomness.",
  ["inputs", "configurations"], "every content and every internal order of the collections involved",
  "Hash order is random per process, so a test sees one order per run and usually has too few elements to notice.",
  [KC + "principal/individual.rs", KC + "util/content_addressed_map.rs", "beekem/src/content_addressed_map.rs", KC + "principal/group/membership_operation.rs", "beekem/src/operation.rs"],
  [("Individual::pick_prekey", KC + "principal/individual.rs"), ("Hash / Ord / Serialize implementations", "all crates"), ("reverse_topsort / topsort", KC + "principal/group/membership_operation.rs")],
  ["equality of computed values across replicas"])

p("C13", "Content-addressed stores only hold values under their own hash",
  "Every entry of a content-addressed store is keyed by the hash of the value it stores, so a lookup by hash can only return a value with that hash. No operation can place a value under a foreign key or change a stored value in place.",
  ["inputs", "histories"], "every sequence of insertions, merges, deserialisations and lookups",
  "One mutator or constructor that bypasses hashing breaks it, for inputs no test uses.",
  [KC + "util/content_addressed_map.rs", "beekem/src/content_addressed_map.rs", KC + "store/delegation.rs", KC + "store/revocation.rs"],
  [("CaMap insert / from / merge", "beekem/src/content_addressed_map.rs")], ["results of lookups by hash"])

p("C14", "Archives capture and restore all persistent state",
  "Saving and reloading an instance preserves its identity and keys, its individuals, groups, documents and their histories, its document key trees, and the operations it has received but not yet been able to apply. Ingesting an archive into a running instance likewise takes over its prekeys, individuals, membership operations, key-tree operations and pending operations. Caches that can be recomputed are exempt.",
  ["histories", "crash_points"], "every reachable state at the moment of saving",
  "Tests save and reload a few small states and compare a few fields.",
  [KH, KC + "archive.rs", KC + "principal/document.rs", KC + "principal/group.rs", KC + "principal/active.rs"],
  [("Keyhive::into_archive / try_from_archive / ingest_archive", KH), ("Document and Group archives", KC + "principal/document.rs")],
  ["state of an instance before saving and after reloading"])

p("C15", "Operations waiting for dependencies are never lost",
  "An operation that cannot be applied yet because something it depends on has not arrived is retained, and is tried again whenever later operations arrive, until it is applied. This holds also when several batches are ingested concurrently.",
  ["histories", "schedules"], "every order and batching of received operations and every interleaving of concurrent ingestion",
  "Loss needs an overlap of two ingestions or a specific error; tests ingest one batch at a time.",
  [KH], [("Keyhive::ingest_unsorted_static_events, receive_event / pending_events", KH), ("is_missing_dependency", KH)],
  ["operations eventually applied", "pending operations"], [("pending_events", "operations waiting for dependencies", KH)])

p("C16", "Known principals are never dropped from the registry",
  "Once an individual, group or document is known, it stays known: when new information shows that an individual is really a group or a document, it is replaced by that group or document in the same operation, and no other operation removes a principal.",
  ["histories"], "every history of received operations",
  "The affected paths need an identifier first seen as an individual and then as a group; tests do not exercise most of them.",
  [KH], [("promote_individual_to_group, receive_delegation, receive_revocation", KH)],
  ["lookup of a principal by identifier"], [("individuals, groups, docs", "registries of principals", KH)])

p("C17", "The public principal always uses its well-known key",
  "The prekey of the public principal is the fixed well-known one on every replica: no received operation or contact card can add or rotate its prekeys, and adding it to a document always uses the well-known key.",
  ["inputs", "histories"], "every received prekey operation and contact card, for every state",
  "An attacker knows the public principal's secret, so validly signed operations exist for it; tests send at most one of them.",
  [KH, GR, KC + "principal/public.rs", KC + "principal/document.rs"], [("guards in the receive functions", KH), ("pick_individual_prekeys", GR)],
  ["prekeys of the public principal"])

p("C18", "Forks are isolated from the original until merged",
  "Changes made to a fork are not visible through the original, and changes made to the original are not visible through the fork, until the fork is merged back. A transaction that fails leaves the original unchanged.",
  ["programs", "fault_sequences"], "every operation performed on a fork or its original, and every failure point of a transaction",
  "Sharing is invisible unless the specific shared part is mutated on one side and read on the other.",
  [KC + "transact.rs", KC + "transact/fork.rs", KC + "principal/active.rs", KH], [("Fork / ForkAsync implementations", KC + "transact/fork.rs"), ("transact_async", KC + "transact.rs")],
  ["state of the original while a fork is used"])

p("C19", "A failed signature leaves the document key tree unchanged",
  "Creating a key-agreement operation (adding, removing or updating a member) either succeeds as a whole or fails leaving the key tree and the operation history as they were: no failure can leave the tree changed without a recorded operation.",
  ["fault_sequences"], "every failure point of creating an operation, in particular failures of an external signer",
  "Signers in tests never fail.",
  ["beekem/src/cgka.rs", "beekem/src/tree.rs"], [("Cgka::add / remove / update", "beekem/src/cgka.rs")],
  ["key tree and operation graph after a failed call"])

p("C20", "Members with the same operations derive the same document key",
  "Any two members of a document who have applied the same set of key-agreement operations, in any causally valid order, derive the same document key, and a member can decrypt everything encrypted to the document since they were added.",
  ["histories"], "every set of operations and every causally valid delivery order",
  "Concurrent adds, removes and updates interact through the tree in unboundedly many ways.",
  ["beekem/src/cgka.rs", "beekem/src/tree.rs"], [("Cgka / BeeKem tree", "beekem/src/tree.rs")], ["derived keys, decryption results"])

p("C21", "Removed members cannot derive later document keys",
  "After a member has been removed and a later key update has been applied, the removed member's keys do not allow deriving any document key established by that or later updates.",
  ["histories", "inputs"], "every history containing a removal followed by an update",
  "It is a secrecy statement over all computations of the removed member.",
  ["beekem/src/cgka.rs", "beekem/src/tree.rs"], [("path blanking on removal and re-keying on update", "beekem/src/tree.rs")], ["keys derivable from a removed member's secrets"])

p("C22", "Replicas with the same membership operations agree on the members",
  "Two replicas that have received the same delegations and revocations, in any order, report the same members with the same access.",
  ["histories"], "every set of operations and every order of arrival",
  "Orders of arrival and conflict patterns are unbounded.",
  [GR, KC + "principal/group/membership_operation.rs"], [("Group::rebuild, MembershipOperation::reverse_topsort", GR)], ["members reported by each replica"])

p("C23", "No received input makes an instance panic",
  "Whatever operations, contact cards, archives or ciphertexts are received, processing them returns normally with success or an error.",
  ["inputs", "histories"], "every received byte string and operation",
  "Panics hide in invariants assumed of local state that adversarial histories break.",
  [KH, GR, "beekem/src/tree.rs"], [("expect / unwrap / indexing on data derived from received operations", KH)], ["normal return of the receiving functions"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
