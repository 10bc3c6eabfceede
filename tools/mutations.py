"""Edits for the self-test. expect: 'catch' (the listed checks must alarm) or 'quiet' (they must not)."""
ST = "keyhive_core/src/principal/group/state.rs"
DL = "keyhive_core/src/principal/group/delegation.rs"
GRP = "keyhive_core/src/principal/group.rs"
KHF = "keyhive_core/src/keyhive.rs"
DOCF = "keyhive_core/src/principal/document.rs"
AGF = "keyhive_core/src/principal/agent.rs"
ACF = "keyhive_core/src/access.rs"
MUTATIONS = []


def catch(name, props, *edits, **k):
    MUTATIONS.append(dict(name=name, props=props.split(), edits=list(edits), expect="catch", **k))


def quiet(name, props, *edits, **k):
    MUTATIONS.append(dict(name=name, props=props.split(), edits=list(edits), expect="quiet", **k))


# ---- C02
catch("c02-subject", "C02", (ST, "if delegation.subject_id() != Identifier::from(self.id) {", "if false && delegation.subject_id() != Identifier::from(self.id) {"))
catch("c02-root", "C02", (ST, "if delegation.payload().proof.is_none() && delegation.issuer != self.verifying_key() {", "if delegation.payload().proof.is_none() && delegation.issuer != self.verifying_key() && !self.delegation_heads.is_empty() {"))
catch("c02-bound", "C02", (ST, "if delegation.payload.can > proof.payload.can {", "if head.payload.can > proof.payload.can && proof.payload.can != crate::access::Access::Edit {"))
catch("c02-bound-head", "C02", (ST, "if delegation.payload.can > proof.payload.can {", "if head.payload.can > delegation.payload.can {"))
catch("c02-link", "C02", (ST, "if head.verifying_key() != proof.payload.delegate.verifying_key() {", "if head.verifying_key() != proof.payload.delegate.verifying_key() && head.verifying_key() != proof.issuer {"))
catch("c02-access", "C02", (ST, "                    head_id,\n                    delegation.payload.can,", "                    head_id,\n                    crate::access::Access::Relay,"))
catch("c02-tm-key", "C02", (ST, "let head_id = Identifier::from(head.verifying_key());", "let head_id = Identifier::from(proof.verifying_key());"))
catch("c02-skip", "C02", (ST, "for (head, proof) in heads.zip(lineage.iter()) {", "for (head, proof) in heads.zip(lineage.iter()).skip(1) {"))
catch("c02-take", "C02", (ST, "for (head, proof) in heads.zip(lineage.iter()) {", "for (head, proof) in heads.zip(lineage.iter()).take(8) {"))
catch("c02-break", "C02", (ST, "            if delegation.payload.can > proof.payload.can {", "            if proof.payload.can == crate::access::Access::Admin && head.payload.can == crate::access::Access::Admin { break; }\n            if delegation.payload.can > proof.payload.can {"))
catch("c02-nohead", "C02", (ST, "let heads = std::iter::once(delegation.as_ref()).chain(lineage.iter().map(|p| p.as_ref()));", "let heads = lineage.iter().map(|p| p.as_ref());"))
catch("c02-lineage-stop", "C02", (DL, "            lineage.push(proof.dupe());\n            head = proof.payload();", "            lineage.push(proof.dupe());\n            if proof.payload().can == crate::access::Access::Admin { break; }\n            head = proof.payload();"))
catch("c02-order", "C02", (ACF, "    Relay,\n\n    /// The ability to read (decrypt) the content of a document.\n    Read,", "    Read,\n\n    /// The ability to read (decrypt) the content of a document.\n    Relay,"))
catch("c02-isreader", "C02", (ACF, "self >= Access::Read", "self >= Access::Relay"))
catch("c02-min", "C02", (ST, "*access >= min_access", "*access <= min_access"))
catch("c02-push-early", "C02", (ST, "        // Validate the proof chain. Each link", "        if self.delegation_heads.is_empty() { self.delegation_heads.insert(delegation.dupe()); }\n        // Validate the proof chain. Each link"))
quiet("c02-q-loop", "C02 C03 C04", (ST, "        let lineage = delegation.payload.proof_lineage();\n        let heads = std::iter::once(delegation.as_ref()).chain(lineage.iter().map(|p| p.as_ref()));\n        for (head, proof) in heads.zip(lineage.iter()) {",
      "        let lineage = delegation.payload.proof_lineage();\n        let mut head_arc = delegation.dupe();\n        for proof in lineage.iter() {\n            let head = head_arc.dupe();\n            head_arc = proof.dupe();"))
quiet("c02-q-helper", "C02 C03 C04", (ST, "            if delegation.payload.can > proof.payload.can {\n                return Err(AddError::Escelation {\n                    claimed: delegation.payload.can,\n                    proof: proof.payload.can,\n                });\n            }\n\n            if head", "            check_bound(&delegation, proof)?;\n\n            if head"),
      (ST, "/// Whether `member_id` is a member of", "fn check_bound<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S, T>>(delegation: &Arc<Signed<Delegation<F, S, T, L>>>, proof: &Arc<Signed<Delegation<F, S, T, L>>>) -> Result<(), AddError> {\n    if proof.payload.can < delegation.payload.can {\n        return Err(AddError::Escelation { claimed: delegation.payload.can, proof: proof.payload.can });\n    }\n    Ok(())\n}\n\n/// Whether `member_id` is a member of"))
quiet("c02-q-while", "C02 C03 C04", (DL, "        while let Some(proof) = &head.proof {\n            lineage.push(proof.dupe());\n            head = proof.payload();\n        }\n\n        lineage", "        loop {\n            match head.proof.as_ref() {\n                None => break,\n                Some(proof) => {\n                    lineage.push(Arc::clone(proof));\n                    head = &proof.payload;\n                }\n            }\n        }\n\n        lineage"))
quiet("c02-q-index", "C02 C03 C04", (ST, "        let heads = std::iter::once(delegation.as_ref()).chain(lineage.iter().map(|p| p.as_ref()));\n        for (head, proof) in heads.zip(lineage.iter()) {\n            if delegation.payload.can",
      "        for i in 0..lineage.len() {\n            let head: &Signed<_> = if i == 0 { delegation.as_ref() } else { lineage[i - 1].as_ref() };\n            let proof = &lineage[i];\n            if delegation.payload.can"))
quiet("c02-q-order", "C02 C03 C04", (ST, "        if delegation.subject_id() != Identifier::from(self.id) {\n            return Err(AddError::InvalidSubject(Box::new(delegation.subject_id())));\n        }\n\n        if delegation.payload().proof.is_none() && delegation.issuer != self.verifying_key() {\n            return Err(AddError::InvalidProofChain);\n        }\n",
      "        if delegation.payload().is_root() && delegation.issuer != self.verifying_key() {\n            return Err(AddError::InvalidProofChain);\n        }\n\n        let subject = delegation.subject_id();\n        if Identifier::from(self.id) != subject {\n            return Err(AddError::InvalidSubject(Box::new(subject)));\n        }\n"))
quiet("c02-q-statement", "C02 C03 C04", (ST, "        let lineage = delegation.payload.proof_lineage();", "        let _unused = 1 + 1;\n        let lineage = delegation.payload.proof_lineage();"))

# ---- C03
catch("c03-subject", "C03", (ST, "if revocation.subject_id() != Identifier::from(self.id) {", "if revocation.payload.proof.is_none() && revocation.subject_id() != Identifier::from(self.id) {"))
catch("c03-proof-subject", "C03", (ST, "if proof.subject_id() != Identifier::from(self.id) {", "if proof.payload.proof.is_some() && proof.subject_id() != Identifier::from(self.id) {"))
catch("c03-party", "C03", (ST, "            if !(is_proof_or_descendant && is_party_to_proof) {", "            if !(is_proof_or_descendant || is_party_to_proof) {"))
catch("c03-party2", "C03", (ST, "                || revocation.issuer == proof.payload.delegate.verifying_key();", "                || proof.issuer == proof.payload.delegate.verifying_key();"))
catch("c03-rel", "C03", (ST, "                || revocation.payload.revoke.payload.is_descendant_of(proof);", "                || proof.payload.is_descendant_of(&revocation.payload.revoke);"))
catch("c03-access", "C03", (ST, "revocation.payload.revoke.payload.can,\n                )", "Access::Relay,\n                )"))
catch("c03-root", "C03", (ST, "} else if revocation.issuer != self.verifying_key() {", "} else if revocation.issuer != self.verifying_key() && !revocation.payload.revoke.payload.is_root() {"))
catch("c03-walk", "C03", (ST, "                if proof.payload.can > next_proof.payload.can {", "                if head.payload.can > Access::Edit { break; }\n                if proof.payload.can > next_proof.payload.can {"))
catch("c03-tm", "C03", (ST, "                    &proof.payload.delegate,\n                    revoker_id,", "                    &revocation.payload.revoke.payload.delegate,\n                    revoker_id,"))
catch("c03-early", "C03", (ST, "        if let Some(proof) = &revocation.payload.proof {\n            if proof", "        self.revocation_heads.insert(revocation.dupe());\n        if let Some(proof) = &revocation.payload.proof {\n            if proof"))
quiet("c03-q-match", "all", (ST, "        if let Some(proof) = &revocation.payload.proof {\n            if proof", "        let maybe_proof = revocation.payload.proof.as_ref();\n        if let Some(proof) = maybe_proof {\n            if proof"),
      (ST, "            if !(is_proof_or_descendant && is_party_to_proof) {", "            let direct = match (is_proof_or_descendant, is_party_to_proof) { (true, true) => true, _ => false };\n            if !direct {"))
quiet("c03-q-helper", "all", (ST, "        } else if revocation.issuer != self.verifying_key() {\n            return Err(AddError::InvalidProofChain);\n        }", "        } else {\n            self.check_root_revocation(&revocation)?;\n        }"),
      (ST, "    pub async fn delegations_for(", "    fn check_root_revocation(&self, revocation: &Signed<Revocation<F, S, T, L>>) -> Result<(), AddError> {\n        if revocation.issuer == self.verifying_key() { Ok(()) } else { Err(AddError::InvalidProofChain) }\n    }\n\n    pub async fn delegations_for("))
quiet("c03-q-early", "all", (ST, "        self.revocation_heads.insert(revocation.dupe());\n\n        let hash = self.revocations.lock().await.insert(revocation);\n        Ok(hash)", "        let hash = self.revocations.lock().await.insert(revocation.dupe());\n        self.revocation_heads.insert(revocation);\n        Ok(hash)"))

# ---- C04
catch("c04-noclear", "C04", (GRP, "        self.members.clear();\n", "        if self.active_revocations.is_empty() { self.members.clear(); }\n"))
catch("c04-norevoked", "C04", (GRP, "                    if revoked_dlgs.contains(&d.signature.to_bytes()) {\n                        continue;\n                    }\n", "                    if revoked_dlgs.contains(&d.signature.to_bytes()) && d.payload.can < crate::access::Access::Admin {\n                        continue;\n                    }\n"))
catch("c04-nocascade", "C04", (GRP, "                                if dlgs_in_play.contains_key(dlg_sig) {", "                                if dlgs_in_play.contains_key(dlg_sig) && next_to_revoke.len() < 16 {"))
catch("c04-replace", "C04", (GRP, "                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {\n                        mut_dlgs.push(d.dupe());\n                    } else {\n                        self.members\n                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);\n                    }", "                    self.members.insert(d.payload.delegate.id(), nonempty![d.dupe()]);"))
catch("c04-andor", "C04", (GRP, "                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())\n                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())\n                        {\n                            // No", "                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())\n                            && !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())\n                        {\n                            // No"))
catch("c04-altaccess", "C04", (GRP, ".any(|dlg| dlg != proof && dlg.payload.can >= proof.payload.can)", ".any(|dlg| dlg != proof && dlg.payload.can <= proof.payload.can)"))
catch("c04-altself", "C04", (GRP, ".any(|dlg| dlg != proof && dlg.payload.can >= proof.payload.can)", ".any(|dlg| dlg.payload.can >= proof.payload.can)"))
catch("c04-altany", "C04", (GRP, "[author, proof.payload.delegate.id()].iter().any(|id| {", "[author, proof.payload.delegate.id(), self.id()].iter().any(|id| {"))
catch("c04-revoke-proof", "C04", (GRP, "                            if !self.has_alternative_proof(r.issuer.into(), found_proof) {\n                                continue;\n                            }", "                            if self.members.is_empty() {\n                                continue;\n                            }"))
catch("c04-root", "C04", (GRP, "                    } else if d.issuer != self.verifying_key() {\n                        debug_assert!(false, \"Delegation without valid root proof\");\n                        continue;\n                    }\n", "                    }\n"))
catch("c04-direct", "C04", (GRP, "    pub fn revoked_members(&self)", "    pub fn forget(&mut self, id: &Identifier) { self.members.remove(id); }\n    pub fn revoked_members(&self)"))
catch("c04-after", "C04", (DL, "            revocations: &self.after_revocations,", "            revocations: if self.proof.is_some() { &[] } else { &self.after_revocations },"))
catch("c04-norebuild", "C04", (GRP, "        let digest = self.state.add_revocation(revocation.dupe()).await?;\n        self.rebuild().await;", "        let known = self.state.revocation_heads.len();\n        let digest = self.state.add_revocation(revocation.dupe()).await?;\n        if self.state.revocation_heads.len() > known { self.rebuild().await; }"))
catch("c04-onlyfirst", "C04", (GRP, "                            for dlg_sig in dlg_sigs_to_revoke.iter() {", "                            for dlg_sig in dlg_sigs_to_revoke.iter().take(1) {"))
catch("c04-dropwrong", "C04", (GRP, ".filter(|dlg| dlg.signature.to_bytes() != sig)", ".filter(|dlg| dlg.signature.to_bytes() != sig || dlg.payload.can == Access::Admin)"))
catch("c04-nodep", "C04", (GRP, "                            .and_modify(|set| {\n                                set.insert(d.signature.to_bytes());\n                            })\n", ""))
catch("c04-restore", "C04", (KHF, "            // The revocations in force are not archived\n            group.rebuild().await;\n", ""))
quiet("c04-q-entry", "all", (GRP, "                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {\n                        mut_dlgs.push(d.dupe());\n                    } else {\n                        self.members\n                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);\n                    }",
  "                    match self.members.entry(d.payload.delegate.id()) {\n                        std::collections::hash_map::Entry::Occupied(mut e) => { e.get_mut().push(d.dupe()); }\n                        std::collections::hash_map::Entry::Vacant(e) => { e.insert(nonempty![d.dupe()]); }\n                    }"))
quiet("c04-q-entry2", "all", (GRP, "                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {\n                        mut_dlgs.push(d.dupe());\n                    } else {\n                        self.members\n                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);\n                    }",
  "                    self.members\n                        .entry(d.payload.delegate.id())\n                        .and_modify(|dlgs| dlgs.push(d.dupe()))\n                        .or_insert_with(|| nonempty![d.dupe()]);"))
quiet("c04-q-live", "all", (GRP, "                        // If the proof was directly revoked, then check if they've been\n", "                        let proof_sig = found_proof.signature.to_bytes();\n                        let live = dlgs_in_play.contains_key(&proof_sig) && !revoked_dlgs.contains(&proof_sig);\n"),
  (GRP, "                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())\n                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())\n                        {\n                            // No suitable proofs\n                            if !self.has_alternative_proof(d.issuer.into(), found_proof) {\n                                continue;\n                            }\n                        }", "                        if !live && !self.has_alternative_proof(d.issuer.into(), found_proof) {\n                            continue;\n                        }"))
quiet("c04-q-alt-loop", "all", (GRP, "        [author, proof.payload.delegate.id()].iter().any(|id| {\n            self.members.get(id).is_some_and(|dlgs| {\n                dlgs.iter()\n                    .any(|dlg| dlg != proof && dlg.payload.can >= proof.payload.can)\n            })\n        })",
  "        for id in [author, proof.payload.delegate.id()] {\n            if let Some(dlgs) = self.members.get(&id) {\n                for dlg in dlgs.iter() {\n                    if dlg == proof { continue; }\n                    if dlg.payload.can >= proof.payload.can { return true; }\n                }\n            }\n        }\n        false"))
quiet("c04-q-drop-helper", "all", (GRP, "                    for (id, sig) in to_drop {\n                        let remaining = self\n                            .members\n                            .get(&id)\n                            .map(|dlgs| {\n                                dlgs.iter()\n                                    .filter(|dlg| dlg.signature.to_bytes() != sig)\n                                    .cloned()\n                                    .collect()\n                            })\n                            .unwrap_or_default();\n\n                        if let Some(dlgs) = NonEmpty::from_vec(remaining) {\n                            self.members.insert(id, dlgs);\n                        } else {\n                            self.members.remove(&id);\n                        }\n                    }",
  "                    for (id, sig) in to_drop {\n                        self.drop_delegation(id, sig);\n                    }"),
  (GRP, "    /// Whether the author of an operation, or the delegate of the proof it cites,\n", "    fn drop_delegation(&mut self, id: Identifier, sig: [u8; 64]) {\n        let mut remaining = Vec::new();\n        if let Some(dlgs) = self.members.get(&id) {\n            for dlg in dlgs.iter() { if dlg.signature.to_bytes() != sig { remaining.push(dlg.clone()); } }\n        }\n        match NonEmpty::from_vec(remaining) {\n            Some(dlgs) => { self.members.insert(id, dlgs); }\n            None => { self.members.remove(&id); }\n        }\n    }\n\n    /// Whether the author of an operation, or the delegate of the proof it cites,\n"))
quiet("c04-q-inplay", "all", (GRP, "                    dlgs_in_play.insert(d.signature.to_bytes(), d.dupe());\n\n                    if let Some", "                    if let Some"),
  (GRP, "                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);\n                    }\n", "                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);\n                    }\n                    dlgs_in_play.insert(d.signature.to_bytes(), d.dupe());\n"))
quiet("c04-q-admit-helper", "all", (GRP, "                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {\n                        mut_dlgs.push(d.dupe());\n                    } else {\n                        self.members\n                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);\n                    }", "                    self.admit(&d);"),
  (GRP, "    /// Whether the author of an operation, or the delegate of the proof it cites,\n", "    fn admit(&mut self, d: &Arc<Signed<Delegation<F, S, T, L>>>) {\n        let id = d.payload.delegate.id();\n        if let Some(held) = self.members.get_mut(&id) {\n            held.push(d.dupe());\n            return;\n        }\n        self.members.insert(id, nonempty![d.dupe()]);\n    }\n\n    /// Whether the author of an operation, or the delegate of the proof it cites,\n"))

# ---- C01
SIG = "keyhive_crypto/src/signed.rs"
INDS = "keyhive_core/src/principal/individual/state.rs"
INDF = "keyhive_core/src/principal/individual.rs"
OPF = "keyhive_core/src/principal/individual/op.rs"
catch("c01-insert-op", "C01", (INDS, "        op.try_verify()?;\n        self.ops.insert(Arc::new(op));", "        if !self.ops.contains_key(&keyhive_crypto::digest::Digest::hash(&op)) && self.ops.len() > 8 { op.try_verify()?; }\n        self.ops.insert(Arc::new(op));"))
catch("c01-insert-first", "C01", (INDS, "        op.try_verify()?;\n        self.ops.insert(Arc::new(op));\n        Ok(())", "        let op = Arc::new(op);\n        self.ops.insert(op.clone());\n        op.try_verify()"))
catch("c01-card", "C01", (KHF, "        contact_card.op().try_verify()?;\n", "        if self.get_individual(contact_card.id()).await.is_none() {\n            contact_card.op().try_verify()?;\n        }\n"), )
catch("c01-cgka", "C01", (KHF, "        signed_op.try_verify()?;\n\n        let doc_id", "        if !matches!(signed_op.payload, CgkaOperation::Update { .. }) {\n            signed_op.try_verify()?;\n        }\n\n        let doc_id"))
catch("c01-dlg", "C01", (KHF, "        static_dlg.try_verify()?;\n", "        let verified = static_dlg.try_verify();\n        if static_dlg.payload.proof.is_none() {\n            verified?;\n        }\n"))
catch("c01-rev", "C01", (KHF, "        static_rev.try_verify()?;\n", "        if let Err(e) = static_rev.try_verify() {\n            tracing::warn!(\"{e}\");\n        }\n"))
catch("c01-keyop", "C01", (OPF, "            KeyOp::Rotate(rot) => rot.try_verify(),", "            KeyOp::Rotate(_) => Ok(()),"))
catch("c01-verify-key", "C01", (SIG, "        let buf: Vec<u8> = bincode::serialize(&self.payload)?;\n        Ok(self\n            .verifying_key()\n            .verify(buf.as_slice(), &self.signature)?)", "        let buf: Vec<u8> = bincode::serialize(&self.issuer)?;\n        Ok(self\n            .verifying_key()\n            .verify(buf.as_slice(), &self.signature)?)"))
catch("c01-can", "C01", (KHF, "            can: static_dlg.payload().can,\n            after_revocations,", "            can: static_dlg.payload().can.max(crate::access::Access::Read),\n            after_revocations,"))
catch("c01-owner", "C01", (INDF, "        if op.verifying_key() != self.id.verifying_key() {\n            return Err(ReceivePrekeyOpError::IncorrectSigner);\n        }\n", "        if op.verifying_key() != self.id.verifying_key() && !self.prekeys.is_empty() && matches!(op, op::KeyOp::Rotate(_)) {\n            return Err(ReceivePrekeyOpError::IncorrectSigner);\n        }\n"))
catch("c01-register", "C01", (KHF, "        // Nothing below (including registering a new individual) may happen for\n        // an op that its claimed issuer didn't sign.\n        key_op.try_verify()?;\n", ""))
catch("c01-static-apply", "C01", (KHF, "    #[instrument(skip_all)]\n    pub async fn receive_cgka_op(", "    pub async fn receive_cgka_ops(&self, ops: Vec<(DocumentId, Arc<Signed<CgkaOperation>>)>) -> Result<(), ReceiveCgkaOpError> {\n        for (id, op) in ops {\n            if let Some(doc) = self.get_document(id).await {\n                doc.lock().await.merge_cgka_op(op)?;\n            }\n        }\n        Ok(())\n    }\n\n    #[instrument(skip_all)]\n    pub async fn receive_cgka_op("))
quiet("c01-q-match", "all", (KHF, "        static_dlg.try_verify()?;\n", "        match static_dlg.try_verify() {\n            Ok(()) => {}\n            Err(e) => return Err(e.into()),\n        }\n"))
quiet("c01-q-helper", "all", (KHF, "        signed_op.try_verify()?;\n\n        let doc_id", "        Self::check_op(&signed_op)?;\n\n        let doc_id"),
   (KHF, "    #[instrument(skip_all)]\n    pub async fn receive_cgka_op(", "    fn check_op(op: &Signed<CgkaOperation>) -> Result<(), ReceiveCgkaOpError> {\n        op.try_verify()?;\n        Ok(())\n    }\n\n    #[instrument(skip_all)]\n    pub async fn receive_cgka_op("))
quiet("c01-q-late", "all", (KHF, "        signed_op.try_verify()?;\n\n        let doc_id", "        let doc_id"),
   (KHF, "        let signed_op = Arc::new(signed_op);\n        if let CgkaOperation::Add", "        signed_op.try_verify()?;\n        let signed_op = Arc::new(signed_op);\n        if let CgkaOperation::Add"))
quiet("c01-q-apply-helper", "all", (KHF, "        if doc.lock().await.merge_cgka_op(signed_op.clone())? {\n            self.event_listener.on_cgka_op(&signed_op).await;\n        }\n        Ok(())\n    }", "        self.apply_cgka_op(doc, signed_op).await\n    }\n\n    async fn apply_cgka_op(&self, doc: Arc<Mutex<Document<F, S, T, L>>>, op: Arc<Signed<CgkaOperation>>) -> Result<(), ReceiveCgkaOpError> {\n        let merged = doc.lock().await.merge_cgka_op(op.clone())?;\n        if merged {\n            self.event_listener.on_cgka_op(&op).await;\n        }\n        Ok(())\n    }"))
quiet("c01-q-verify", "all", (SIG, "        Ok(self\n            .verifying_key()\n            .verify(buf.as_slice(), &self.signature)?)", "        self.issuer.verify(&buf, &self.signature)?;\n        Ok(())"))
quiet("c01-q-strict", "all", (SIG, "            .verify(buf.as_slice(), &self.signature)?)", "            .verify_strict(buf.as_slice(), &self.signature)?)"))
quiet("c01-q-keyop", "all", (INDF, "        if op.verifying_key() != self.id.verifying_key() {\n            return Err(ReceivePrekeyOpError::IncorrectSigner);\n        }\n", "        if IndividualId(op.verifying_key().into()) != self.id {\n            return Err(ReceivePrekeyOpError::IncorrectSigner);\n        }\n"))
quiet("c01-q-revdelegate", "all", (KHF, "            can: static_dlg.payload().can,\n            after_revocations,", "            can: { let access = static_dlg.payload().can; access },\n            after_revocations,"))

# ---- C10 / C19
CGF = "beekem/src/cgka.rs"
OGF = "beekem/src/operation.rs"
TRF = "beekem/src/tree.rs"
KDOC = "keyhive_core/src/principal/document.rs"
catch("c10-once", "C10", (CGF, "        if self.ops_graph.contains_op_hash(&Digest::hash(&op)) {\n            return Ok(false);\n        }\n", ""))
catch("c10-causal", "C10", (CGF, "        if !self.ops_graph.contains_predecessors(&predecessors) {", "        if !predecessors.is_empty() && !self.ops_graph.contains_predecessors(&predecessors) && matches!(op.payload, CgkaOperation::Update { .. }) {"))
catch("c10-any", "C10", (OGF, "preds.iter().all(|hash| self.cgka_ops.contains_key(hash))", "preds.is_empty() || preds.iter().any(|hash| self.cgka_ops.contains_key(hash))"))
catch("c10-heads", "C10", (OGF, "self.cgka_op_heads.iter().all(|h| heads.contains(h))", "self.cgka_op_heads.iter().any(|h| heads.contains(h))"))
catch("c10-nopending", "C10", (CGF, "                self.pending_ops_for_structural_change = true;\n                self.ops_graph.add_op(&op, &predecessors);", "                self.ops_graph.add_op(&op, &predecessors);"))
catch("c10-remove-direct", "C10", (CGF, "                CgkaOperation::Add { .. } | CgkaOperation::Remove { .. }\n            ) {", "                CgkaOperation::Add { .. }\n            ) {"))
catch("c10-pending-direct", "C10", (CGF, "            if self.pending_ops_for_structural_change {\n                self.ops_graph.add_op(&op, &predecessors);\n            } else if", "            if"))
catch("c10-noreplay", "C10", (CGF, "        } else {\n            if self.should_replay() {\n                self.replay_ops_graph()?;\n            }\n            self.apply_operation(op)?;", "        } else {\n            self.apply_operation(op)?;"))
catch("c10-add-noreplay", "C10", (CGF, "        if self.should_replay() {\n            self.replay_ops_graph()?;\n        }\n        if self.tree.contains_id(&id) {\n            return Ok(None);", "        if self.tree.contains_id(&id) {\n            return Ok(None);"))
catch("c10-replay-late", "C10", (CGF, "        if self.should_replay() {\n            self.replay_ops_graph()?;\n        }\n        if self.tree.contains_id(&id) {\n            return Ok(None);", "        if self.tree.contains_id(&id) {\n            return Ok(None);\n        }\n        if self.should_replay() {\n            self.replay_ops_graph()?;"))
catch("c10-should", "C10", (CGF, "&& (self.pending_ops_for_structural_change || !self.ops_graph.has_single_head())", "&& self.pending_ops_for_structural_change"))
catch("c10-norecord", "C10", (CGF, "        self.ops_graph.add_op(&op, &op.payload.predecessors());\n        Ok(())", "        if !matches!(op.payload, CgkaOperation::Remove { .. }) {\n            self.ops_graph.add_op(&op, &op.payload.predecessors());\n        }\n        Ok(())"))
catch("c10-epoch-first", "C10", (CGF, "                    for op in epoch.iter() {\n                        self.apply_operation(op.clone())?;\n                    }\n                    continue;", "                    self.apply_operation(epoch[0].clone())?;\n                    continue;"))
catch("c10-epoch-skip", "C10", (CGF, "                        CgkaOperation::Remove { id, leaf_idx, .. } => {\n                            removed_ids.insert((id, leaf_idx));\n                        }\n                        _ => {}", "                        CgkaOperation::Remove { id, leaf_idx, .. } => {\n                            removed_ids.insert((id, leaf_idx));\n                        }\n                        _ => continue,"))
catch("c10-replay-heads", "C10", (CGF, "let ordered_ops = self.ops_graph.topsort_graph()?;\n        let rebuilt", "let ordered_ops = self.ops_graph.topsort_for_heads(&self.ops_graph.add_heads)?;\n        let rebuilt"))
catch("c10-replay-old", "C10", (CGF, "        rebuilt_cgka.apply_epochs(&epochs)?;\n        if rebuilt_cgka.has_pcs_key() {", "        if !epochs.is_empty() && self.pending_ops_for_structural_change {\n            rebuilt_cgka.apply_epochs(&epochs)?;\n        }\n        if rebuilt_cgka.has_pcs_key() {"))
catch("c10-graph-clear", "C10", (OGF, "            for h in self.cgka_op_heads.iter() {\n                op_predecessors.insert(*h);\n            }\n", ""))
catch("c10-graph-nohead", "C10", (OGF, "        self.cgka_op_heads.insert(op_hash);\n", "        if external_heads.is_none() || !is_add {\n            self.cgka_op_heads.insert(op_hash);\n        }\n"))
catch("c10-doc-nomerge", "C10", (KDOC, "            Some(cgka) => return cgka.merge_concurrent_operation(op),", "            Some(cgka) if cgka.group_size() > 0 => return cgka.merge_concurrent_operation(op),\n            Some(_) => return Ok(true),"))
catch("c10-merge-fork", "C10", (CGF, "        self.replay_ops_graph()\n", "        if self.should_replay() { self.replay_ops_graph().unwrap_or_default(); }\n        Ok(())\n") if False else (CGF, "            self.apply_operation(op)?;\n        }\n        Ok(true)", "            self.apply_operation(op)?;\n        }\n        Ok(!is_concurrent)"))
catch("c10-preds", "C10", (CGF, "            let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());\n            let op = CgkaOperation::Update {", "            let predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());\n            let op = CgkaOperation::Update {"))
quiet("c10-q-loop", "all", (OGF, "preds.iter().all(|hash| self.cgka_ops.contains_key(hash))", "for hash in preds {\n            if !self.cgka_ops.contains_key(hash) {\n                return false;\n            }\n        }\n        true"))
quiet("c10-q-heads-loop", "all", (OGF, "self.cgka_op_heads.iter().all(|h| heads.contains(h))", "!self.cgka_op_heads.iter().any(|h| !heads.contains(h))"))
quiet("c10-q-settle", "all", (CGF, "        if self.should_replay() {\n            self.replay_ops_graph()?;\n        }\n        if self.tree.contains_id(&id) {\n            return Ok(None);", "        self.settle()?;\n        if self.tree.contains_id(&id) {\n            return Ok(None);"),
      (CGF, "    /// Whether we have unresolved concurrency that", "    fn settle(&mut self) -> Result<(), CgkaError> {\n        if !self.should_replay() {\n            return Ok(());\n        }\n        self.replay_ops_graph()\n    }\n\n    /// Whether we have unresolved concurrency that"))
quiet("c10-q-epoch", "all", (CGF, "            if epoch.len() == 1 {\n                self.apply_operation(epoch[0].clone())?;\n            } else {", "            if epoch.len() == 1 {\n                for op in epoch.iter() {\n                    self.apply_operation(op.dupe_arc())?;\n                }\n            } else {".replace("dupe_arc", "clone")))
quiet("c10-q-hold", "all", (CGF, "        if is_concurrent {\n            if self.pending_ops_for_structural_change {\n                self.ops_graph.add_op(&op, &predecessors);\n            } else if matches!(\n                op.payload,\n                CgkaOperation::Add { .. } | CgkaOperation::Remove { .. }\n            ) {\n                self.pending_ops_for_structural_change = true;\n                self.ops_graph.add_op(&op, &predecessors);\n            } else {\n                self.apply_operation(op)?;\n            }\n        } else {",
      "        if is_concurrent {\n            let structural = !matches!(op.payload, CgkaOperation::Update { .. });\n            let hold = self.pending_ops_for_structural_change || structural;\n            if hold {\n                self.pending_ops_for_structural_change = true;\n                self.ops_graph.add_op(&op, &predecessors);\n                return Ok(true);\n            }\n            self.apply_operation(op)?;\n        } else {"))
quiet("c10-q-graph", "all", (OGF, "            for h in self.cgka_op_heads.iter() {\n                op_predecessors.insert(*h);\n            }\n            self.cgka_op_heads.clear();", "            op_predecessors.extend(self.cgka_op_heads.iter().copied());\n            self.cgka_op_heads.clear();"))
quiet("c10-q-graph-take", "all", (OGF, "            for h in self.cgka_op_heads.iter() {\n                op_predecessors.insert(*h);\n            }\n            self.cgka_op_heads.clear();", "            op_predecessors = core::mem::take(&mut self.cgka_op_heads);"))
quiet("c10-q-graph-order", "all", (OGF, "        self.cgka_op_heads.insert(op_hash);\n        if self.is_add_op(&op_hash) {\n            self.add_heads.insert(op_hash);\n        }\n        self.cgka_ops_predecessors.insert(op_hash, op_predecessors);", "        self.cgka_ops_predecessors.insert(op_hash, op_predecessors);\n        if is_add {\n            self.add_heads.insert(op_hash);\n        }\n        self.cgka_op_heads.insert(op_hash);"))
quiet("c10-q-replay-inline", "all", (CGF, "        let rebuilt_cgka = self.rebuild_cgka(ordered_ops)?;\n        self.update_cgka_from(&rebuilt_cgka);\n        self.pending_ops_for_structural_change = false;\n        Ok(())", "        self.rebuild_cgka(ordered_ops).map(|rebuilt| {\n            self.update_cgka_from(&rebuilt);\n            self.pending_ops_for_structural_change = false;\n        })"))
quiet("c10-q-apply", "all", (CGF, "        match op.payload {\n            CgkaOperation::Add { added_id, pk, .. } => {\n                self.tree.push_leaf(added_id, pk.into());\n            }\n            CgkaOperation::Remove { id, .. } => {\n                self.tree.remove_id(id)?;\n            }\n            CgkaOperation::Update { ref new_path, .. } => {\n                self.tree.apply_path(new_path);\n            }\n        }\n        self.ops_graph.add_op(&op, &op.payload.predecessors());\n        Ok(())",
      "        self.change_tree(&op.payload)?;\n        let preds = op.payload.predecessors();\n        self.ops_graph.add_op(&op, &preds);\n        Ok(())\n    }\n\n    fn change_tree(&mut self, op: &CgkaOperation) -> Result<(), CgkaError> {\n        match op {\n            CgkaOperation::Add { added_id, pk, .. } => {\n                self.tree.push_leaf(*added_id, (*pk).into());\n            }\n            CgkaOperation::Remove { id, .. } => {\n                self.tree.remove_id(*id)?;\n            }\n            CgkaOperation::Update { new_path, .. } => {\n                self.tree.apply_path(new_path);\n            }\n        }\n        Ok(())"))
quiet("c10-q-doc", "all", (KDOC, "            Some(cgka) => return cgka.merge_concurrent_operation(op),", "            Some(cgka) => {\n                let merged = cgka.merge_concurrent_operation(op)?;\n                return Ok(merged);\n            }"))
catch("c19-add", "C19", (CGF, "        let mut tree = self.tree.clone();\n        let leaf_index = tree.push_leaf(id, pk.into());", "        let leaf_index = self.tree.push_leaf(id, pk.into());\n        let tree = self.tree.clone();"))
catch("c19-remove", "C19", (CGF, "        let mut tree = self.tree.clone();\n        let (leaf_idx, removed_keys) = tree.remove_id(id)?;", "        let (leaf_idx, removed_keys) = self.tree.remove_id(id)?;\n        let tree = self.tree.clone();"))
catch("c19-update", "C19", (CGF, "            let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;\n            self.tree = tree;\n", "            self.tree = tree;\n            let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;\n"))
catch("c19-norecord", "C19 C10", (CGF, "        self.tree = tree;\n        self.ops_graph.add_local_op(&signed_op);\n        Ok(Some(signed_op))", "        self.tree = tree;\n        if leaf_index > 0 || self.group_size() > 2 {\n            self.ops_graph.add_local_op(&signed_op);\n        }\n        Ok(Some(signed_op))"))
catch("c19-after", "C19", (CGF, "            self.ops_graph.add_local_op(&signed_op);\n            self.insert_pcs_key(&pcs_key, Digest::hash(&signed_op));\n            Ok((pcs_key, signed_op))", "            self.ops_graph.add_local_op(&signed_op);\n            self.insert_pcs_key(&pcs_key, Digest::hash(&signed_op));\n            if signed_op.try_verify().is_err() {\n                return Err(CgkaError::IdentifierNotFound);\n            }\n            Ok((pcs_key, signed_op))"))
quiet("c19-q-commit", "all", (CGF, "        let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;\n        self.tree = tree;\n        self.ops_graph.add_local_op(&signed_op);\n        Ok(Some(signed_op))", "        let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;\n        self.commit(tree, &signed_op);\n        Ok(Some(signed_op))"),
      (CGF, "    /// Whether we have unresolved concurrency that", "    fn commit(&mut self, tree: BeeKem, op: &Signed<CgkaOperation>) {\n        self.ops_graph.add_local_op(op);\n        self.tree = tree;\n    }\n\n    /// Whether we have unresolved concurrency that"))
quiet("c19-q-match", "all", (CGF, "            let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;\n            self.tree = tree;\n", "            let signed_op = match async_signer::try_sign_async::<F, _, _>(signer, op).await {\n                Ok(signed) => signed,\n                Err(e) => return Err(e.into()),\n            };\n            self.tree = tree;\n"))
catch("c10-graph-some", "C10", (OGF, "            for h in self.cgka_op_heads.iter() {\n                op_predecessors.insert(*h);\n            }", "            for h in self.cgka_op_heads.iter() {\n                if !is_add || self.is_add_op(h) {\n                    op_predecessors.insert(*h);\n                }\n            }"))
ACTF = "keyhive_core/src/principal/active.rs"
TELLC = "        for cgka_op in &update.cgka_ops {\n            self.event_listener\n                .on_cgka_op(&Arc::new(cgka_op.clone()))\n                .await;\n        }\n"
catch("c11-skip", "C11", (KHF, TELLC + "\n        Ok(update)", TELLC.replace("in &update.cgka_ops {", "in update.cgka_ops.iter().skip(1) {") + "\n        Ok(update)"))
catch("c11-readers-only", "C11", (KHF, "                update.cgka_ops.extend(ops);\n            }\n        }\n\n" + TELLC, "                update.cgka_ops.extend(ops);\n            }\n" + TELLC + "        }\n"))
catch("c11-addmember-extend", "C11", (KHF, "                update.cgka_ops.extend(ops);\n", "                if update.cgka_ops.is_empty() {\n                    update.cgka_ops.extend(ops);\n                }\n"))
catch("c11-revoke-order", "C11", (KHF, "        let mut failure = None;\n        for (doc, previous_readers)", TELLC + "        let mut failure = None;\n        for (doc, previous_readers)"), (KHF, "        " + TELLC.strip() + "\n\n        if let Some(e) = failure {", "        if let Some(e) = failure {"))
catch("c11-revoke-drop", "C11", (KHF, "                    Ok(Some(op)) => update.cgka_ops.push(op),\n", "                    Ok(Some(op)) if readers.is_empty() => update.cgka_ops.push(op),\n                    Ok(Some(_)) => {}\n"))
catch("c11-encrypt", "C11", (KHF, "        if let Some(op) = &result.update_op {\n", "        if let (Some(op), true) = (&result.update_op, pred_refs.is_empty()) {\n"))
catch("c11-pcs", "C11", (KHF, "        self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;\n        Ok((op, new_share_key", "        Ok((op, new_share_key"))
catch("c11-merge-always", "C11", (KHF, "        if doc.lock().await.merge_cgka_op(signed_op.clone())? {\n            self.event_listener.on_cgka_op(&signed_op).await;\n        }\n", "        doc.lock().await.merge_cgka_op(signed_op.clone())?;\n        self.event_listener.on_cgka_op(&signed_op).await;\n"))
catch("c11-merge-first", "C11", (KHF, "        if doc.lock().await.merge_cgka_op(signed_op.clone())? {\n            self.event_listener.on_cgka_op(&signed_op).await;\n        }\n", "        self.event_listener.on_cgka_op(&signed_op).await;\n        doc.lock().await.merge_cgka_op(signed_op.clone())?;\n"))
catch("c11-public-invite", "C11", (KHF, "                if merged {\n                    self.event_listener.on_cgka_op(&signed_op).await;\n                }\n", "                let _ = merged;\n"))
catch("c11-rotate", "C11", (ACTF, "        self.listener.on_prekey_rotated(&rot_op).await;\n", ""))
catch("c11-expand", "C11", (ACTF, "        self.listener.on_prekeys_expanded(&op).await;\n        Ok(op)", "        if self.prekey_pairs.lock().await.len() > 1 {\n            self.listener.on_prekeys_expanded(&op).await;\n        }\n        Ok(op)"))
catch("c11-docgen", "C11", (KDOC, "        ops.push(update_op);\n        for op in ops {\n            group.listener.on_cgka_op(&Arc::new(op)).await;\n        }\n", "        for op in ops {\n            group.listener.on_cgka_op(&Arc::new(op)).await;\n        }\n        drop(update_op);\n"))
catch("c11-docgen-init", "C11", (KDOC, "        ops.push(cgka.init_add_op());\n", ""))
catch("c11-grpgen", "C11", (GRP, "                futs.push(async move {\n                    listen.on_delegation(&rc).await;\n", "                futs.push(async move {\n                    if rc.payload().delegate.is_individual_like() {\n                        listen.on_delegation(&rc).await;\n                    }\n".replace("delegate.is_individual_like()", "after_content.is_empty()")))
catch("c11-grpgen-undrained", "C11", (GRP, "            while let Some(res) = futs.next().await {\n                res?;\n            }\n", "            if let Some(res) = futs.next().await {\n                res?;\n            }\n"))
catch("c11-addmember-dlg", "C11", (GRP, "        self.listener.on_delegation(&rc).await;\n\n        Ok(AddMemberUpdate {", "        if can.is_reader() {\n            self.listener.on_delegation(&rc).await;\n        }\n\n        Ok(AddMemberUpdate {"))
catch("c11-addmember-first", "C11", (GRP, "        let _digest = self.receive_delegation(rc.dupe()).await?;\n        self.listener.on_delegation(&rc).await;\n", "        self.listener.on_delegation(&rc).await;\n        let _digest = self.receive_delegation(rc.dupe()).await?;\n"))
catch("c11-rev", "C11", (GRP, "        self.rebuild().await;\n        self.listener.on_revocation(&revocation).await;\n", "        self.rebuild().await;\n        if !self.members.is_empty() {\n            self.listener.on_revocation(&revocation).await;\n        }\n"))
catch("c11-rev-first", "C11", (GRP, "        let digest = self.state.add_revocation(revocation.dupe()).await?;\n        self.rebuild().await;\n        self.listener.on_revocation(&revocation).await;\n", "        self.listener.on_revocation(&revocation).await;\n        let digest = self.state.add_revocation(revocation.dupe()).await?;\n        self.rebuild().await;\n"))
catch("c11-rev-unreceived", "C11", (GRP, "                    revocations.push(r);\n                    found = true;\n                } else {", "                    revocations.push(r);\n                    found = true;\n                } else {") if False else (GRP, "                            Some(to_revoke.dupe()), // You issued it!\n                            after_content.clone(),\n                        )\n                        .await?;\n                    self.receive_revocation(r.dupe()).await?;\n", "                            Some(to_revoke.dupe()), // You issued it!\n                            after_content.clone(),\n                        )\n                        .await?;\n                    let _ = self.state.add_revocation(r.dupe()).await?;\n"))
catch("c11-card", "C11", (KHF, "                .receive_prekey_op(contact_card.op().dupe())?;\n            indie.dupe()\n", "                .receive_prekey_op(contact_card.op().dupe())\n                .ok();\n            indie.dupe()\n"))
quiet("c11-q-helper", "all", (KHF, TELLC + "\n        Ok(update)", "        self.announce(&update.cgka_ops).await;\n\n        Ok(update)"), (KHF, TELLC + "\n        if let", "        self.announce(&update.cgka_ops).await;\n\n        if let"),
      (KHF, "    /// Encrypt content, also returning", "    async fn announce(&self, ops: &[Signed<CgkaOperation>]) {\n        for op in ops {\n            let op = Arc::new(op.clone());\n            self.event_listener.on_cgka_op(&op).await;\n        }\n    }\n\n    /// Encrypt content, also returning"))
quiet("c11-q-while", "all", (KHF, TELLC + "\n        Ok(update)", "        let mut rest = update.cgka_ops.iter();\n        while let Some(op) = rest.next() {\n            self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;\n        }\n\n        Ok(update)"))
quiet("c11-q-each", "all", (KHF, "                    Ok(Some(op)) => update.cgka_ops.push(op),\n", "                    Ok(Some(op)) => {\n                        self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;\n                        mine.push(op);\n                    }\n"), (KHF, "        let mut failure = None;\n        for (doc, previous_readers)", TELLC + "        let mut mine = vec![];\n        let mut failure = None;\n        for (doc, previous_readers)"), (KHF, "        " + TELLC.strip() + "\n\n        if let Some(e) = failure {", "        update.cgka_ops.extend(mine);\n\n        if let Some(e) = failure {"))
quiet("c11-q-merged", "all", (KHF, "        if doc.lock().await.merge_cgka_op(signed_op.clone())? {\n            self.event_listener.on_cgka_op(&signed_op).await;\n        }\n        Ok(())", "        let changed = doc.lock().await.merge_cgka_op(signed_op.dupe())?;\n        if !changed {\n            return Ok(());\n        }\n        self.event_listener.on_cgka_op(&signed_op).await;\n        Ok(())"))
quiet("c11-q-grpgen", "all", (GRP, "            let mut futs = FuturesUnordered::new();\n", "            let mut made = vec![];\n"), (GRP, "                let listen = async_listener.dupe();\n                futs.push(async move {\n                    listen.on_delegation(&rc).await;\n                    Ok::<(), SigningError>(())\n                });\n            }\n\n            while let Some(res) = futs.next().await {\n                res?;\n            }\n", "                made.push(rc);\n            }\n            for rc in &made {\n                async_listener.on_delegation(rc).await;\n            }\n"), (GRP, "use futures::{lock::Mutex, stream::FuturesUnordered, StreamExt};", "use futures::lock::Mutex;"))
quiet("c11-q-docgen", "all", (KDOC, "        ops.push(update_op);\n        for op in ops {\n            group.listener.on_cgka_op(&Arc::new(op)).await;\n        }\n", "        for op in ops.into_iter().chain(std::iter::once(update_op)) {\n            group.listener.on_cgka_op(&Arc::new(op)).await;\n        }\n"))
quiet("c11-q-rev", "all", (GRP, "        let digest = self.state.add_revocation(revocation.dupe()).await?;\n        self.rebuild().await;\n        self.listener.on_revocation(&revocation).await;\n", "        let digest = self.state.add_revocation(revocation.dupe()).await?;\n        self.listener.on_revocation(&revocation).await;\n        self.rebuild().await;\n"))
quiet("c11-q-card", "all", (KHF, "        match contact_card.op() {\n            KeyOp::Add(add_op) => {\n                self.event_listener.on_prekeys_expanded(add_op).await;\n            }\n            KeyOp::Rotate(rot_op) => {\n                self.event_listener.on_prekey_rotated(rot_op).await;\n            }\n        }\n", "        if let KeyOp::Add(add_op) = contact_card.op() {\n            self.event_listener.on_prekeys_expanded(add_op).await;\n        } else if let KeyOp::Rotate(rot_op) = contact_card.op() {\n            self.event_listener.on_prekey_rotated(rot_op).await;\n        }\n"))

# --- C15
catch("c15-drop-cgka-errors", "C15", (KHF, "matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_))", "matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_) | ReceiveStaticEventError::ReceiveCgkaOpError(_))"))
catch("c15-clear-pending", "C15", (KHF, "                pending.retain(|e| !replayed_pending.contains(&Digest::hash(e.as_ref())));\n                pending.extend", "                pending.clear();\n                pending.extend"))
catch("c15-not-extended", "C15", (KHF, "                pending.extend(new_pending.iter().cloned());\n", ""))
catch("c15-extend-some", "C15", (KHF, "pending.extend(new_pending.iter().cloned());", "pending.extend(new_pending.iter().take(1024).cloned());"))
catch("c15-one-pass", "C15", (KHF, "if next_epoch.len() == epoch_len {", "if next_epoch.len() <= epoch_len {"))
catch("c15-two-failures", "C15", (KHF, "if next_epoch.len() == epoch_len {", "if next_epoch.len() + 1 >= epoch_len {"))
catch("c15-not-replayed", "C15", (KHF, "            events.push(event.as_ref().clone());\n        }\n\n        // Dedup", "        }\n\n        // Dedup"))
catch("c15-snapshot-takes", "C15", (KHF, "for event in self.pending_events.as_ref().lock().await.iter() {", "let taken = std::mem::take(&mut *self.pending_events.as_ref().lock().await);\n        for event in taken.iter() {"))
catch("c15-only-missing-deps", "C15", (KHF, "                        err = Some(e);\n                        next_epoch.push(event);", "                        if e.is_missing_dependency() {\n                            next_epoch.push(event);\n                        }\n                        err = Some(e);"))
catch("c15-unknown-doc-ok", "C15", (KHF, "            locked_docs\n                .get(&doc_id)\n                .ok_or(ReceiveCgkaOpError::UnknownDocument(doc_id))?\n                .dupe()", "            match locked_docs.get(&doc_id) {\n                Some(d) => d.dupe(),\n                None => return Ok(()),\n            }"))
catch("c15-lock-gap", "C15", (KHF, "                let mut pending = self.pending_events.lock().await;\n                pending.retain(|e| !replayed_pending.contains(&Digest::hash(e.as_ref())));\n", "                self.pending_events\n                    .lock()\n                    .await\n                    .retain(|e| !replayed_pending.contains(&Digest::hash(e.as_ref())));\n                let mut pending = self.pending_events.lock().await;\n"))
catch("c15-retain-none", "C15", (KHF, "                pending.retain(|e| !replayed_pending.contains(&Digest::hash(e.as_ref())));\n                pending.extend", "                pending.retain(|e| replayed_pending.is_empty() || !replayed_pending.contains(&Digest::hash(e.as_ref())) && Arc::strong_count(e) > 7);\n                pending.extend"))
catch("c15-assigned", "C15", (KHF, "                pending.extend(new_pending.iter().cloned());\n", "                *pending = new_pending.clone();\n"))
catch("c15-prekey-unknown-ok", "C15", (KHF, "            let indie = Arc::new(Mutex::new(Individual::new(key_op.clone())));\n            self.register_individual(indie.dupe()).await;\n            Agent::Individual(id.into(), indie)", "            return Ok(());"))
catch("c15-revoked-unknown-ok", "C15", (KHF, "                {\n                    let mut locked_groups = self.groups.lock().await;\n                    locked_groups.insert(GroupId(id), group.dupe());\n                }\n                group\n                    .lock()\n                    .await\n                    .receive_revocation(revocation.clone())\n                    .await?;", "                {\n                    let mut locked_groups = self.groups.lock().await;\n                    locked_groups.insert(GroupId(id), group.dupe());\n                }"))
quiet("c15-match", "all", (KHF, "                if let Err(e) = self.receive_static_event(event.clone()).await {\n                    if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) {\n                        tracing::warn!(\"Dropping unrecoverable prekey event: {:?}\", e);\n                    } else {\n                        err = Some(e);\n                        next_epoch.push(event);\n                    }\n                }", "                match self.receive_static_event(event.clone()).await {\n                    Ok(()) => continue,\n                    Err(e @ ReceiveStaticEventError::ReceivePrekeyOpError(_)) => {\n                        tracing::warn!(\"Dropping unrecoverable prekey event: {:?}\", e);\n                    }\n                    Err(e) => {\n                        err = Some(e);\n                        next_epoch.push(event);\n                    }\n                }"))
quiet("c15-len", "all", (KHF, "if next_epoch.is_empty() {", "let left = next_epoch.len();\n            if left == 0 {"), (KHF, "if next_epoch.len() == epoch_len {", "if left == epoch_len {"))
quiet("c15-push-loop", "all", (KHF, "                pending.extend(new_pending.iter().cloned());\n", "                for e in &new_pending {\n                    pending.push(e.clone());\n                }\n"))
quiet("c15-flag", "all", (KHF, "                if let Err(e) = self.receive_static_event(event.clone()).await {\n", "                let res = self.receive_static_event(event.clone()).await;\n                if res.is_ok() {\n                    progress = true;\n                }\n                if let Err(e) = res {\n"), (KHF, "let epoch_len = epoch.len();", "let epoch_len = epoch.len();\n            let mut progress = false;"), (KHF, "                        tracing::warn!(\"Dropping unrec", "                        progress = true;\n                        tracing::warn!(\"Dropping unrec"), (KHF, "if next_epoch.len() == epoch_len {", "if !progress {"))
quiet("c15-collect", "all", (KHF, "        let mut replayed_pending: HashSet<Digest<StaticEvent<T>>> = HashSet::new();\n        for event in self.pending_events.as_ref().lock().await.iter() {\n            replayed_pending.insert(Digest::hash(event.as_ref()));\n            events.push(event.as_ref().clone());\n        }\n", "        let snapshot: Vec<Arc<StaticEvent<T>>> = self.pending_events.lock().await.clone();\n        let replayed_pending: HashSet<Digest<StaticEvent<T>>> =\n            snapshot.iter().map(|e| Digest::hash(e.as_ref())).collect();\n        events.extend(snapshot.iter().map(|e| e.as_ref().clone()));\n"))
quiet("c15-helper", "all", (KHF, "            for event in epoch {\n                if let Err(e) = self.receive_static_event(event.clone()).await {\n                    if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) {\n                        tracing::warn!(\"Dropping unrecoverable prekey event: {:?}\", e);\n                    } else {\n                        err = Some(e);\n                        next_epoch.push(event);\n                    }\n                }\n            }\n", "            for event in epoch {\n                if let Some(e) = self.try_static_event(&event).await {\n                    err = Some(e);\n                    next_epoch.push(event);\n                }\n            }\n"), (KHF, "    #[instrument(level = \"trace\", skip_all)]\n    pub async fn ingest_unsorted_static_events(", "    async fn try_static_event(&self, event: &StaticEvent<T>) -> Option<ReceiveStaticEventError<F, S, T, L>> {\n        match self.receive_static_event(event.clone()).await {\n            Ok(()) => None,\n            Err(e) if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) => {\n                tracing::warn!(\"Dropping unrecoverable prekey event: {:?}\", e);\n                None\n            }\n            Err(e) => Some(e),\n        }\n    }\n\n    #[instrument(level = \"trace\", skip_all)]\n    pub async fn ingest_unsorted_static_events("))

# C05
_PUSH1 = "            explore.push(GroupAccess {\n                agent: dlg.payload.delegate.clone(),\n                agent_access: dlg.payload.can,\n                parent_access: Access::Admin,\n            });\n"
_PUSH2 = "                        explore.push(GroupAccess {\n                            agent: sub_dlg.payload.delegate.dupe(),\n                            agent_access: sub_dlg.payload.can,\n                            parent_access: current_path_access,\n                        });\n"
catch("c05-parent-own", "C05", (GRP, "parent_access: current_path_access,", "parent_access: access,"))
catch("c05-parent-lost", "C05", (GRP, "parent_access: current_path_access,", "parent_access: Access::Admin,"))
catch("c05-parent-parent", "C05", (GRP, "parent_access: current_path_access,", "parent_access,"))
catch("c05-max", "C05", (GRP, "access.min(parent_access)", "access.max(parent_access)"))
catch("c05-own-only", "C05", (GRP, "let current_path_access = access.min(parent_access);", "let _ = parent_access;\n            let current_path_access = access;"))
catch("c05-first-wins", "C05", (GRP, "                if *existing_access >= current_path_access {\n", "                if *existing_access >= Access::Read || *existing_access >= current_path_access {\n"))
catch("c05-last-wins", "C05", (GRP, "                if *existing_access >= current_path_access {\n", "                if *existing_access == current_path_access {\n"))
catch("c05-equal-loop", "C05", (GRP, "            caps.insert(id, (member.dupe(), current_path_access));\n", "            caps.insert(id, (member.dupe(), access));\n"))
catch("c05-docs-skipped", "C05", (GRP, "                Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),\n                _ => None,\n            } {\n                for dlgs", "                Agent::Document(..) => None,\n                _ => None,\n            } {\n                for dlgs"))
catch("c05-first-dlg", "C05", (GRP, "for sub_dlg in dlgs.iter() {", "for sub_dlg in dlgs.iter().take(1) {"))
catch("c05-skip-relay", "C05", (GRP, _PUSH2, "                        if sub_dlg.payload.can == Access::Relay {\n                            continue;\n                        }\n" + _PUSH2))
catch("c05-skip-admin", "C05", (GRP, "            if id == self.id() || id == except {\n                continue;", "            if id == self.id() || id == except || access == Access::Admin && parent_access == Access::Relay {\n                continue;"))
catch("c05-cap-order", "C05", (GRP, ".max_by(|d1, d2| d1.payload().can.cmp(&d2.payload().can))", ".max_by(|d1, d2| d2.payload().can.cmp(&d1.payload().can))"))
catch("c05-cap-first", "C05", (GRP, "            delegations\n                .iter()\n                .max_by(|d1, d2| d1.payload().can.cmp(&d2.payload().can))\n", "            Some(delegations.first())\n"))
catch("c05-report-other", "C05", (KHF, "locked.transitive_members().await.get(&agent.id()) {\n                let membered = Membered::Document", "locked.transitive_members().await.get(&Identifier::from(self.id())) {\n                let membered = Membered::Document"))
catch("c05-report-admin", "C05", (KHF, "                        can: *cap,\n", "                        can: (*cap).max(Access::Read),\n"))
catch("c05-report-drop", "C05", (KHF, "                let membered = Membered::Document(locked.doc_id(), doc.dupe());\n", "                if *can == Access::Relay {\n                    continue;\n                }\n                let membered = Membered::Document(locked.doc_id(), doc.dupe());\n"))
catch("c05-membered-except", "C05", ("keyhive_core/src/principal/membered.rs", "                locked.group.transitive_members_except(except).await", "                locked.group.transitive_members().await"))
catch("c05-level", "C05", (ACF, "self >= Access::Read", "self > Access::Read"))
catch("c05-levels-swapped", "C05", (ACF, "    Read,\n\n    /// The ability to edit (append ops to) the content of a document.\n    Edit,", "    Edit,\n\n    /// The ability to edit (append ops to) the content of a document.\n    Read,"))
quiet("c05-min-fn", "all", (GRP, "access.min(parent_access)", "std::cmp::min(parent_access, access)"))
quiet("c05-min-if", "all", (GRP, "access.min(parent_access)", "if access < parent_access {\n                access\n            } else {\n                parent_access\n            }"))
quiet("c05-min-early", "all", (GRP, "                            agent_access: sub_dlg.payload.can,\n                            parent_access: current_path_access,", "                            agent_access: sub_dlg.payload.can.min(current_path_access),\n                            parent_access: Access::Admin,"))
quiet("c05-tuple", "all", (GRP, "let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];", "let mut explore: std::collections::VecDeque<GroupAccess<F, S, T, L>> = Default::default();"), (GRP, "explore.push(GroupAccess {\n                agent: dlg", "explore.push_back(GroupAccess {\n                agent: dlg"), (GRP, "explore.push(GroupAccess {\n                            agent: sub", "explore.push_back(GroupAccess {\n                            agent: sub"), (GRP, "explore.pop()", "explore.pop_front()"))
quiet("c05-match-members", "all", (GRP, "            if let Some(membered) = match member {\n                Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),\n                Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),\n                _ => None,\n            } {\n                for dlgs in membered.members().await.values() {", "            let nested = match member {\n                Agent::Group(_, inner_group) => Some(inner_group.lock().await.members().clone()),\n                Agent::Document(_, doc) => Some(doc.lock().await.members().clone()),\n                Agent::Active(..) | Agent::Individual(..) => None,\n            };\n            if let Some(nested) = nested {\n                for dlgs in nested.values() {"))
quiet("c05-is-some-and", "all", (GRP, "            if let Some((_, existing_access)) = caps.get(&id) {\n                if *existing_access >= current_path_access {\n                    // Already explored along a path that is at least as powerful\n                    continue;\n                }\n            }\n", "            let known = caps\n                .get(&id)\n                .is_some_and(|(_, existing)| *existing >= current_path_access);\n            if known {\n                continue;\n            }\n"))
quiet("c05-max-by-key", "all", (GRP, ".max_by(|d1, d2| d1.payload().can.cmp(&d2.payload().can))", ".max_by_key(|d| d.payload().can)"))
quiet("c05-seed-all", "all", (GRP, "        for member in self.members.keys() {\n            let dlg = self\n                .get_capability(member)\n                .expect(\"members have capabilities by defintion\");\n\n" + _PUSH1 + "        }\n", "        for dlgs in self.members.values() {\n            for dlg in dlgs.iter() {\n                explore.push(GroupAccess {\n                    agent: dlg.payload.delegate.clone(),\n                    agent_access: dlg.payload.can,\n                    parent_access: Access::Admin,\n                });\n            }\n        }\n"))
quiet("c05-report-map", "all", (KHF, "            if let Some((_, cap)) = locked.transitive_members().await.get(&agent.id()) {\n                caps.insert(\n                    locked.doc_id(),\n                    Ability {\n                        doc: doc.dupe(),\n                        can: *cap,\n                    },\n                );\n            }\n", "            let members = locked.transitive_members().await;\n            let can = match members.get(&agent.id()) {\n                None => continue,\n                Some((_, can)) => *can,\n            };\n            let id = locked.doc_id();\n            drop(locked);\n            caps.insert(id, Ability { doc, can });\n"))
quiet("c05-extend", "all", (GRP, "                    for sub_dlg in dlgs.iter() {\n" + _PUSH2 + "                    }\n", "                    explore.extend(dlgs.iter().map(|sub_dlg| GroupAccess {\n                        agent: sub_dlg.payload.delegate.dupe(),\n                        agent_access: sub_dlg.payload.can,\n                        parent_access: current_path_access,\n                    }));\n"))

# C13
CAK = "keyhive_core/src/util/content_addressed_map.rs"
CAB = "beekem/src/content_addressed_map.rs"
MEMF = "keyhive_core/src/store/ciphertext/memory.rs"
_DE = "        let entries = BTreeMap::<Digest<T>, T>::deserialize(deserializer)?;\n        let mut map = Self::new();\n        for (hash, value) in entries {\n            if map.insert(Arc::new(value)) != hash {\n                return Err(serde::de::Error::custom(\"value stored under a foreign hash\"));\n            }\n        }\n        Ok(map)\n"
_EXT = "        // Never trust the given hashes\n        for (_, value) in iter {\n            self.insert(value);\n        }\n"
_MRG = "        for (k, v) in other.0 {\n            self.0.entry(k).or_insert(v);\n        }\n"
_FI = "                .map(|preimage| (Digest::hash(&preimage), Arc::new(preimage)))\n                .collect(),\n"
_INS = "        let key: Digest<T> = Digest::hash(&value);\n        self.0.insert(key, value);\n        key\n"
for f in (CAK, CAB):
    x = "k" if f == CAK else "b"
    catch(f"c13-de-trust-{x}", "C13", (f, _DE, "        let entries = BTreeMap::<Digest<T>, T>::deserialize(deserializer)?;\n        Ok(Self(entries.into_iter().map(|(k, v)| (k, Arc::new(v))).collect()))\n"))
    catch(f"c13-de-late-{x}", "C13", (f, _DE, "        let entries = BTreeMap::<Digest<T>, T>::deserialize(deserializer)?;\n        let mut map = Self::new();\n        for (hash, value) in entries {\n            map.0.insert(hash, Arc::new(value));\n        }\n        Ok(map)\n"))
    catch(f"c13-ext-trust-{x}", "C13", (f, _EXT, "        for (k, value) in iter {\n            self.0.insert(k, value);\n        }\n"))
    catch(f"c13-ext-ext-{x}", "C13", (f, _EXT, "        self.0.extend(iter);\n"))
    catch(f"c13-merge-swap-{x}", "C13", (f, _MRG, "        for ((k, _), v) in self.0.clone().into_iter().zip(other.0.into_values()) {\n            self.0.insert(k, v);\n        }\n"))
    catch(f"c13-insert-last-{x}", "C13", (f, _INS, "        let key: Digest<T> = Digest::hash(&value);\n        let old = self.0.keys().next().copied().unwrap_or(key);\n        self.0.insert(old, value);\n        key\n"))
    catch(f"c13-get-other-{x}", "C13", (f, "        self.0.get(hash)\n", "        self.0.get(hash).or_else(|| self.0.values().next().filter(|_| self.0.len() == 1))\n"))
    catch(f"c13-inplace-{x}", "C13", (f, _INS, "        let key: Digest<T> = Digest::hash(&value);\n        if let Some(x) = self.0.values_mut().next() {\n            *x = value.clone();\n        }\n        self.0.insert(key, value);\n        key\n"))
    catch(f"c13-pub-{x}", "C13", (f, "(pub(crate) ", "(pub "))
    catch(f"c13-remove-{x}", "C13", (f, "        self.0.remove(hash)\n", "        let k = self.0.keys().find(|k| k >= &hash).copied()?;\n        self.0.remove(&k)\n"))
    quiet(f"c13-entry-{x}", "all", (f, _INS, "        let key: Digest<T> = Digest::hash(value.as_ref());\n        self.0.entry(key).or_insert(value);\n        key\n"))
    quiet(f"c13-helper-{x}", "all", (f, _INS, "        let key = Self::key_of(&value);\n        self.0.insert(key, value);\n        key\n"), (f, "    /// Remove an element from the map by its [`Digest`].\n", "    fn key_of(value: &T) -> Digest<T> {\n        Digest::hash(value)\n    }\n\n    /// Remove an element from the map by its [`Digest`].\n"))
    quiet(f"c13-merge-insert-{x}", "all", (f, _MRG, "        for (_, v) in other.0 {\n            self.insert(v);\n        }\n"))
    quiet(f"c13-merge-extend-{x}", "all", (f, _MRG, "        self.0.extend(other.0);\n"))
    quiet(f"c13-merge-contains-{x}", "all", (f, _MRG, "        for (k, v) in other.0.into_iter() {\n            if !self.0.contains_key(&k) {\n                self.0.insert(k, v);\n            }\n        }\n"))
    quiet(f"c13-fromiter-loop-{x}", "all", (f, "        Self(\n            iter.into_iter()\n" + _FI + "        )\n", "        let mut map = Self::new();\n        for preimage in iter {\n            map.insert(Arc::new(preimage));\n        }\n        map\n"))
    quiet(f"c13-de-if-{x}", "all", (f, _DE, "        let entries = BTreeMap::<Digest<T>, T>::deserialize(deserializer)?;\n        let mut map = Self::new();\n        for (hash, value) in entries {\n            if Digest::hash(&value) != hash {\n                return Err(serde::de::Error::custom(\"value stored under a foreign hash\"));\n            }\n            map.0.insert(hash, Arc::new(value));\n        }\n        Ok(map)\n"))
    quiet(f"c13-de-rehash-{x}", "all", (f, _DE, "        let entries = BTreeMap::<Digest<T>, T>::deserialize(deserializer)?;\n        Ok(entries.into_values().collect())\n"))
    quiet(f"c13-ext-for-each-{x}", "all", (f, _EXT, "        iter.into_iter().for_each(|(_, value)| {\n            self.insert(value);\n        });\n"))
    quiet(f"c13-ext-filter-{x}", "all", (f, _EXT, "        for (k, value) in iter {\n            if Digest::hash(value.as_ref()) == k {\n                self.0.insert(k, value);\n            }\n        }\n"))
    quiet(f"c13-len-{x}", "all", (f, "        self.0.contains_key(hash)\n", "        self.get(hash).is_some()\n"))
_DER = "impl<'de, T: Serialize + Deserialize<'de>> Deserialize<'de> for CaMap<T> {\n    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {\n" + _DE + "    }\n}\n"
catch("c13-derive-k", "C13", (CAK, _DER, ""), (CAK, "#[derive(Debug, PartialEq, Eq)]", "#[derive(Debug, PartialEq, Eq, Deserialize)]"))
catch("c13-derive-b", "C13", (CAB, _DER, ""), (CAB, "#[derive(Debug, PartialEq, Eq)]", "#[derive(Debug, PartialEq, Eq, Deserialize)]"))
catch("c13-hash-from", "C13", (CAK, _FI, "                .map(|preimage| (Digest::hash(&preimage), preimage))\n                .collect::<Vec<_>>()\n                .into_iter()\n                .rev()\n                .scan(None, |s, (k, v)| Some((*s.get_or_insert(k), Arc::new(v))))\n                .collect(),\n"))
catch("c13-mem-ref-key", "C13", (MEMF, "            .insert(digest, (ByteSize(encrypted.ciphertext.len()), encrypted))", "            .insert(crate::crypto::digest::Digest::from(pcs_update_op_hash.raw), (ByteSize(encrypted.ciphertext.len()), encrypted))"))
catch("c13-digest-prefix", "C13", ("keyhive_crypto/src/digest.rs", "blake3::hash(bytes.as_slice())", "blake3::hash(&bytes[..bytes.len().min(4096)])"))

# C09
SYMF = "keyhive_crypto/src/symmetric_key.rs"
SIVF = "keyhive_crypto/src/siv.rs"
PCSF = "beekem/src/pcs_key.rs"
ENCF = "beekem/src/encrypted.rs"
BCG = "beekem/src/cgka.rs"
KEYSF = "beekem/src/keys.rs"
catch("c09-siv-prefix", "C09", (SIVF, "hasher.update(plaintext);", "hasher.update(&plaintext[..plaintext.len().min(1024)]);"))
catch("c09-siv-len", "C09", (SIVF, "hasher.update(plaintext);", "hasher.update(&(plaintext.len() as u64).to_le_bytes());"))
catch("c09-siv-nokey", "C09", (SIVF, "        hasher.update(key.as_slice());\n", "        let _ = key;\n"))
catch("c09-siv-nodoc", "C09", (SIVF, "        hasher.update(doc_id);\n", "        if plaintext.is_empty() {\n            hasher.update(doc_id);\n        }\n"))
catch("c09-siv-halffill", "C09", (SIVF, "hasher.finalize_xof().fill(&mut buf);", "hasher.finalize_xof().fill(&mut buf[..8]);"))
catch("c09-siv-reset", "C09", (SIVF, "        let mut buf = [0; 24];", "        if plaintext.len() > 1 << 16 {\n            hasher.reset();\n            hasher.update(plaintext);\n        }\n\n        let mut buf = [0; 24];"))
catch("c09-seal-const", "C09", (SYMF, "let nonce = Siv::new(self, plaintext, associated_data);", "let nonce = Siv::new(self, associated_data, associated_data);"))
catch("c09-seal-zero", "C09", (SYMF, "let nonce = Siv::new(self, plaintext, associated_data);", "let nonce = if plaintext.is_empty() { Siv::from([0; 24]) } else { Siv::new(self, plaintext, associated_data) };"))
catch("c09-seal-other-nonce", "C09", (SYMF, "out.extend_from_slice(nonce.as_bytes());", "out.extend_from_slice(Siv::new(self, &buf, associated_data).as_bytes());"))
catch("c09-decrypt-data", "C09", (SYMF, ".decrypt_in_place(nonce.as_xnonce(), SEPARATOR, data)", ".decrypt_in_place(nonce.as_xnonce(), b\"\", data)"))
catch("c09-content-prefix", "C09", (BCG, "let nonce = Siv::new(&current_pcs_key.into(), content, self.doc_id.as_bytes());", "let nonce = Siv::new(\n            &current_pcs_key.into(),\n            content.get(..4096).unwrap_or(content),\n            self.doc_id.as_bytes(),\n        );"))
catch("c09-content-owner", "C09", (BCG, "let nonce = Siv::new(&current_pcs_key.into(), content, self.doc_id.as_bytes());", "let nonce = Siv::new(&current_pcs_key.into(), content, b\"doc\");"))
catch("c09-content-predref", "C09", (BCG, "                &Digest::hash(pred_refs),\n                self.pcs_key_ops", "                &Digest::hash(&pred_refs.first().cloned().into_iter().collect()),\n                self.pcs_key_ops"))
catch("c09-app-noref", "C09", (PCSF, "format!(\"epoch:{pcs_hash}/pred:{pred_refs}/content:{display_ref}\")", "format!(\"epoch:{pcs_hash}/pred:{pred_refs}/content:{}\", Digest::<Cr>::hash(content_ref).as_slice().len())"), (PCSF, "        let display_ref = Digest::hash(&content_ref);\n", ""))
catch("c09-app-nopred", "C09", (PCSF, "/pred:{pred_refs}/content", "/content"), (PCSF, "let display_ref = Digest::hash(&content_ref);", "let _ = pred_refs;\n        let display_ref = Digest::hash(&content_ref);"))
catch("c09-app-nokey", "C09", (PCSF, "let mut key_material = self.0.clone().as_slice().to_vec();", "let mut key_material = alloc::vec::Vec::new();"), (PCSF, "epoch:{pcs_hash}", "epoch:"), (PCSF, "        let pcs_hash = Digest::hash(&self.0);\n", ""))
catch("c09-app-key-half", "C09", (PCSF, "let mut key_material = self.0.clone().as_slice().to_vec();", "let mut key_material = self.0.clone().as_slice()[..16].to_vec();"), (PCSF, "epoch:{pcs_hash}", "epoch:"), (PCSF, "        let pcs_hash = Digest::hash(&self.0);\n", ""))
catch("c09-app-renonce", "C09", (PCSF, "        self.key.try_encrypt(self.nonce, &mut ciphertext)?;", "        let nonce = Siv::new(&self.key, self.pcs_key_hash.as_slice(), b\"\");\n        self.key.try_encrypt(nonce, &mut ciphertext)?;"))
catch("c09-app-plain", "C09", (PCSF, "        self.key.try_encrypt(self.nonce, &mut ciphertext)?;", "        if !plaintext.is_empty() {\n            self.key.try_encrypt(self.nonce, &mut ciphertext)?;\n        }"))
catch("c09-dec-pred", "C09", (BCG, "            &encrypted.pred_refs,\n", "            &Digest::hash(&alloc::vec![encrypted.content_ref.clone()]),\n"))
catch("c09-dec-current", "C09", (BCG, "                if &Digest::hash(&pcs_key) == pcs_key_hash {\n                    return Ok(pcs_key);\n                }\n", "                if &Digest::hash(&pcs_key) == pcs_key_hash || self.pcs_keys.len() > 8 {\n                    return Ok(pcs_key);\n                }\n"))
catch("c09-stale-key", "C09", (BCG, "            let pcs_key = self.pcs_key_from_tree_root()?;\n            let pcs_hash", "            let known = self.pcs_keys.values().next().cloned();\n            let pcs_key = match known {\n                Some(k) if self.pcs_keys.len() == 1 => *k,\n                _ => self.pcs_key_from_tree_root()?,\n            };\n            let pcs_hash"))
catch("c09-secret-nonce", "C09", (ENCF, "let nonce = Siv::new(&key, &ciphertext, doc_id);", "let nonce = Siv::new(&key, paired_pk.as_bytes(), doc_id);"))
catch("c09-secret-order", "C09", (ENCF, "    let nonce = Siv::new(&key, &ciphertext, doc_id);\n    key.try_encrypt(nonce, &mut ciphertext)\n        .map_err(CgkaError::Encryption)?;\n", "    let nonce = Siv::new(&key, &ciphertext, doc_id);\n    key.try_encrypt(nonce, &mut ciphertext)\n        .map_err(CgkaError::Encryption)?;\n    let nonce = Siv::new(&key, &ciphertext, doc_id);\n"))
catch("c09-secret-key", "C09", (ENCF, "let nonce = Siv::new(&key, &ciphertext, doc_id);", "let nonce = Siv::new(&SymmetricKey::from([7u8; 32]), &ciphertext, doc_id);"))
catch("c09-tree-doc", "C09", ("beekem/src/tree.rs", "                self.doc_id.as_bytes(),\n                *new_parent_sk,\n                child_sk,\n                &paired_pk,", "                b\"\",\n                *new_parent_sk,\n                child_sk,\n                &paired_pk,"))
catch("c09-update-op", "C09", (BCG, "self.insert_pcs_key(&pcs_key, Digest::hash(&update_op));\n            op", "self.insert_pcs_key(&pcs_key, Digest::hash(&self.init_add_op));\n            op"))
quiet("c09-siv-order", "all", (SIVF, "        hasher.update(doc_id);\n        hasher.update(key.as_slice());\n", "        let k = key.as_slice();\n        hasher.update(k);\n        hasher.update(doc_id);\n"))
quiet("c09-siv-chain", "all", (SIVF, "        hasher.update(SEPARATOR);\n        hasher.update(doc_id);\n        hasher.update(key.as_slice());\n        hasher.update(plaintext);\n", "        hasher\n            .update(SEPARATOR)\n            .update(doc_id)\n            .update(key.as_slice())\n            .update(plaintext);\n"))
quiet("c09-siv-helper", "all", (SIVF, "        hasher.update(plaintext);\n", "        absorb(&mut hasher, plaintext);\n"), (SIVF, "impl Siv {\n", "fn absorb(hasher: &mut blake3::Hasher, x: &[u8]) {\n    hasher.update(x);\n}\n\nimpl Siv {\n"))
quiet("c09-app-seal", "all", (PCSF, "        let mut ciphertext = plaintext.to_vec();\n        self.key.try_encrypt(self.nonce, &mut ciphertext)?;\n", "        let Self { key, nonce, .. } = self;\n        let mut ciphertext = Vec::with_capacity(plaintext.len());\n        ciphertext.extend_from_slice(plaintext);\n        key.try_encrypt(*nonce, &mut ciphertext)?;\n"))
quiet("c09-app-context", "all", (PCSF, "        let mut key_material = self.0.clone().as_slice().to_vec();\n        key_material.append(&mut app_secret_context);\n", "        let mut key_material = Vec::new();\n        key_material.extend_from_slice(self.0.as_slice());\n        key_material.append(&mut app_secret_context);\n"))
quiet("c09-dec-vars", "all", (BCG, "        let app_secret = pcs_key.derive_application_secret(\n            &encrypted.nonce,\n            &encrypted.content_ref,\n            &encrypted.pred_refs,\n            &encrypted.pcs_update_op_hash,\n        );\n        Ok(app_secret.key())", "        let EncryptedContent {\n            nonce,\n            content_ref,\n            pred_refs,\n            pcs_update_op_hash,\n            ..\n        } = encrypted;\n        Ok(pcs_key\n            .derive_application_secret(nonce, content_ref, pred_refs, pcs_update_op_hash)\n            .key())"))
quiet("c09-secret-helper", "all", (ENCF, "    let nonce = Siv::new(&key, &ciphertext, doc_id);\n    key.try_encrypt(nonce, &mut ciphertext)\n        .map_err(CgkaError::Encryption)?;\n", "    let nonce = seal(&key, doc_id, &mut ciphertext)?;\n"), (ENCF, "pub fn encrypt_secret(", "fn seal(key: &SymmetricKey, doc_id: &[u8], buf: &mut Vec<u8>) -> Result<Siv, CgkaError> {\n    let nonce = Siv::new(key, buf, doc_id);\n    key.try_encrypt(nonce, buf).map_err(CgkaError::Encryption)?;\n    Ok(nonce)\n}\n\npub fn encrypt_secret("))
quiet("c09-open-split", "all", (SYMF, "        let mut buf = ciphertext.to_vec();\n        self.try_decrypt(nonce, &mut buf)?;\n        Ok(buf)\n", "        let mut plain = Vec::from(ciphertext);\n        self.try_decrypt(nonce, &mut plain).map(|()| plain)\n"))
quiet("c09-current-match", "all", (BCG, "        if let Some(pcs_key) = self.pcs_keys.get(pcs_key_hash) {\n            return Ok(*pcs_key.clone());\n        }\n        if self.has_pcs_key() {\n            if let Ok(pcs_key) = self.pcs_key_from_tree_root() {\n                if &Digest::hash(&pcs_key) == pcs_key_hash {\n                    return Ok(pcs_key);\n                }\n            }\n        }\n", "        if let Some(pcs_key) = self.pcs_keys.get(pcs_key_hash) {\n            return Ok(*pcs_key.clone());\n        }\n        if self.has_pcs_key() {\n            match self.pcs_key_from_tree_root() {\n                Ok(pcs_key) if Digest::hash(&pcs_key) == *pcs_key_hash => return Ok(pcs_key),\n                _ => (),\n            }\n        }\n"))

FORKF = "keyhive_core/src/transact/fork.rs"
TXF = "keyhive_core/src/transact.rs"
catch("c18-active-prekeys", "C18", (ACTF, "            prekey_pairs: Arc::new(Mutex::new(prekey_pairs)),\n            individual: Arc::new(Mutex::new(individual)),\n            listener: Log::new(),", "            prekey_pairs: if prekey_pairs.is_empty() { self.prekey_pairs.clone() } else { Arc::new(Mutex::new(prekey_pairs)) },\n            individual: Arc::new(Mutex::new(individual)),\n            listener: Log::new(),"))
catch("c18-active-indie", "C18", (ACTF, "            individual: Arc::new(Mutex::new(individual)),\n            listener: Log::new(),", "            individual: { let _ = individual; Arc::clone(&self.individual) },\n            listener: Log::new(),"))
catch("c18-active-helper", "C18", (ACTF, "        let individual = self.individual.lock().await.clone();\n        Active {\n            id: self.id,", "        let individual = self.shared_individual();\n        Active {\n            id: self.id,"), (ACTF, "            individual: Arc::new(Mutex::new(individual)),\n            listener: Log::new(),", "            individual,\n            listener: Log::new(),"), (ACTF, "    type AsyncForked = Active<F, S, T, Log<F, S, T>>;", "    type AsyncForked = Active<F, S, T, Log<F, S, T>>;\n"), (ACTF, "/// Errors when sharing encrypted content.", "impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> Active<F, S, T, L> {\n    fn shared_individual(&self) -> Arc<Mutex<Individual>> {\n        self.individual.clone()\n    }\n}\n\n/// Errors when sharing encrypted content."))
catch("c18-kh-individuals", "C18", (KHF, "        Keyhive::try_from_archive(\n            &self.into_archive().await,\n            signer,\n            self.ciphertext_store.clone(),\n            Log::new(),\n            self.csprng.clone(),\n        )\n        .await\n        .expect(\"local round trip to work\")", "        let mut forked: Self::AsyncForked = Keyhive::try_from_archive(\n            &self.into_archive().await,\n            signer,\n            self.ciphertext_store.clone(),\n            Log::new(),\n            self.csprng.clone(),\n        )\n        .await\n        .expect(\"local round trip to work\");\n        forked.individuals = self.individuals.clone();\n        forked"))
catch("c18-kh-pending", "C18", (KHF, "        .expect(\"local round trip to work\")\n", "        .map(|mut fork: Self::AsyncForked| { fork.pending_events = self.pending_events.clone(); fork })\n        .expect(\"local round trip to work\")\n"))
catch("c18-kh-indie-arcs", "C18", (KHF, "        Keyhive::try_from_archive(\n            &self.into_archive().await,\n            signer,\n            self.ciphertext_store.clone(),\n            Log::new(),\n            self.csprng.clone(),\n        )\n        .await\n        .expect(\"local round trip to work\")", "        let forked: Self::AsyncForked = Keyhive::try_from_archive(\n            &self.into_archive().await,\n            signer,\n            self.ciphertext_store.clone(),\n            Log::new(),\n            self.csprng.clone(),\n        )\n        .await\n        .expect(\"local round trip to work\");\n        for (id, indie) in self.individuals.lock().await.iter() {\n            forked.individuals.lock().await.insert(*id, indie.clone());\n        }\n        forked"))
catch("c18-tx-always-merge", "C18", (TXF, "    info_span!(\"blocking_transaction\").in_scope(|| tx(&mut forked))?;\n    trunk.merge(forked);\n    Ok(())", "    let result = info_span!(\"blocking_transaction\").in_scope(|| tx(&mut forked));\n    trunk.merge(forked);\n    result"))
catch("c18-tx-never-merge", "C18", (TXF, "    trunk.merge(forked);\n    Ok(())", "    drop(forked);\n    let fresh = trunk.fork();\n    drop(fresh);\n    Ok(())"))
catch("c18-txa-refork", "C18", (TXF, "            let fork = trunk.fork_async().await;\n            tx(fork).await\n", "            let fork = trunk.fork_async().await;\n            let r = tx(fork).await;\n            if r.is_err() {\n                trunk.clone().merge_async(trunk.fork_async().await).await;\n            }\n            r\n"))
quiet("c18-active-inline", "all", (ACTF, "        let prekey_pairs = self.prekey_pairs.lock().await.clone();\n        let individual = self.individual.lock().await.clone();\n        Active {\n            id: self.id,\n            signer: self.signer.clone(),\n            prekey_pairs: Arc::new(Mutex::new(prekey_pairs)),\n            individual: Arc::new(Mutex::new(individual)),", "        Active {\n            id: self.id,\n            signer: self.signer.clone(),\n            prekey_pairs: Arc::new(Mutex::new(self.prekey_pairs.lock().await.clone())),\n            individual: Arc::new(Mutex::new({ self.individual.lock().await.clone() })),"))
quiet("c18-active-helper-ok", "all", (ACTF, "        let individual = self.individual.lock().await.clone();\n        Active {\n            id: self.id,", "        let individual = self.copied_individual().await;\n        Active {\n            id: self.id,"), (ACTF, "            individual: Arc::new(Mutex::new(individual)),\n            listener: Log::new(),", "            individual,\n            listener: Log::new(),"), (ACTF, "/// Errors when sharing encrypted content.", "impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> Active<F, S, T, L> {\n    async fn copied_individual(&self) -> Arc<Mutex<Individual>> {\n        let copy: Individual = self.individual.lock().await.clone();\n        Arc::new(Mutex::new(copy))\n    }\n}\n\n/// Errors when sharing encrypted content."))
quiet("c18-kh-vars", "all", (KHF, "        Keyhive::try_from_archive(\n            &self.into_archive().await,\n            signer,\n            self.ciphertext_store.clone(),\n            Log::new(),\n            self.csprng.clone(),\n        )\n        .await\n        .expect(\"local round trip to work\")", "        let archive = self.into_archive().await;\n        let log = Log::new();\n        let store = self.ciphertext_store.clone();\n        match Keyhive::try_from_archive(&archive, signer, store, log, self.csprng.clone()).await {\n            Ok(forked) => forked,\n            Err(e) => panic!(\"local round trip to work: {e:?}\"),\n        }"))
quiet("c18-tx-match", "all", (TXF, "    info_span!(\"blocking_transaction\").in_scope(|| tx(&mut forked))?;\n    trunk.merge(forked);\n    Ok(())", "    match info_span!(\"blocking_transaction\").in_scope(|| tx(&mut forked)) {\n        Ok(()) => {\n            trunk.merge(forked);\n            Ok(())\n        }\n        Err(e) => Err(e),\n    }"))
quiet("c18-txa-flat", "all", (TXF, "    let diverged = info_span!(\"nonblocking_transaction\")\n        .in_scope(|| async {\n            let fork = trunk.fork_async().await;\n            tx(fork).await\n        })\n        .await?;\n    trunk.clone().merge_async(diverged).await;\n    Ok(())", "    let fork = trunk.fork_async().await;\n    let diverged = tx(fork).await?;\n    let own = trunk.clone();\n    own.merge_async(diverged).await;\n    Ok(())"))

PUBF = "keyhive_core/src/principal/public.rs"
GRPP = "keyhive_core/src/principal/group.rs"
AGTF = "keyhive_core/src/principal/agent.rs"
PEERF = "keyhive_core/src/principal/peer.rs"
catch("c17-recv-noguard", "C17", (KHF, "        if id == Public.id() {\n            return Ok(());\n        }\n", "        let _ = Public.id();\n"))
catch("c17-recv-rotate-only", "C17", (KHF, "        if id == Public.id() {\n            return Ok(());\n        }\n", "        if id == Public.id() && matches!(key_op, KeyOp::Rotate(_)) {\n            return Ok(());\n        }\n"))
catch("c17-recv-own", "C17", (KHF, "        if id == Public.id() {\n            return Ok(());\n        }\n", "        if id == self.id().into() && id == Public.id() {\n            return Ok(());\n        }\n"))
catch("c17-card-noguard", "C17", (KHF, "        if contact_card.id() == IndividualId(Public.id()) {\n            return Ok(self", "        if contact_card.id() == IndividualId(Public.id()) && matches!(contact_card.op(), KeyOp::Add(_)) {\n            return Ok(self"))
catch("c17-card-late", "C17", (KHF, "        contact_card.op().try_verify()?;\n\n        // Public", "        contact_card.op().try_verify()?;\n        if let Some(known) = self.get_individual(contact_card.id()).await {\n            known.lock().await.receive_prekey_op(contact_card.op().dupe())?;\n        }\n\n        // Public"))
catch("c17-card-fresh", "C17", (KHF, ".or_insert_with(|| Arc::new(Mutex::new(Public.individual())))\n                .dupe());", ".or_insert_with(|| Arc::new(Mutex::new(Individual::from(contact_card))))\n                .dupe());"))
catch("c17-pick-nokey", "C17", (INDF, "            return Public.share_key_ref();", "            if self.prekeys.len() == 1 {\n                return Public.share_key_ref();\n            }"))
catch("c17-pick-wrong", "C17", (INDF, "        if self.id == IndividualId(Public.id()) {", "        if self.id == IndividualId(Public.id()) && self.prekeys.contains(Public.share_key_ref()) {"))
catch("c17-group-other", "C17", (GRPP, "                    crate::principal::public::Public.share_key(),\n", "                    agent.pick_individual_prekeys(doc_id).await.into_values().next().unwrap_or_else(|| crate::principal::public::Public.share_key()),\n"))
catch("c17-agent-first", "C17", (AGTF, "(guard.id(), *guard.pick_prekey(doc_id))", "(guard.id(), guard.prekeys.iter().next().copied().unwrap_or_else(|| *guard.pick_prekey(doc_id)))"))
catch("c17-peer-first", "C17", (PEERF, "                let prekey = locked.pick_prekey(doc_id);\n", "                let prekey = locked.prekeys.iter().min().unwrap_or_else(|| locked.pick_prekey(doc_id));\n"))
catch("c17-add-max", "C17", (KDOC, "            if let Some(op) = self.cgka_mut()?.add(*id, *prekey, signer).await? {", "            let prekey = prekeys.values().max().unwrap_or(prekey);\n            if let Some(op) = self.cgka_mut()?.add(*id, *prekey, signer).await? {"))
catch("c17-generate-noreg", "C17", (KHF, "                (\n                    Public.id().into(),\n                    Arc::new(Mutex::new(Public.individual())),\n                ),\n", ""))
catch("c17-invite-own", "C17", (KHF, "                let sk = Public.share_secret_key();\n                let mut locked_doc", "                let sk = { let active = self.active.lock().await; let pairs = active.prekey_pairs.lock().await; pairs.values().next().copied().unwrap_or_else(|| Public.share_secret_key()) };\n                let mut locked_doc"))
catch("c17-public-random", "C17", (PUBF, "        let prekey_state = PrekeyState::new(op);\n", "        let _: &KeyOp = &op;\n        let op: KeyOp = Arc::new(\n            self.signer()\n                .try_sign_sync(AddKeyOp {\n                    share_key: keyhive_crypto::share_key::ShareSecretKey::generate(&mut rand::rngs::OsRng).share_key(),\n                })\n                .expect(\"signature with well-known key should work\"),\n        )\n        .into();\n        let prekey_state = PrekeyState::new(op);\n"), (PUBF, "        .into();\n", "        .into();\n        use crate::principal::individual::op::KeyOp;\n"))
quiet("c17-recv-helper", "all", (KHF, "        if id == Public.id() {\n            return Ok(());\n        }\n", "        if Self::is_public(&id) {\n            return Ok(());\n        }\n"), (KHF, "    pub async fn receive_prekey_op(&self,", "    fn is_public(id: &Identifier) -> bool {\n        let public = Public.id();\n        *id == public\n    }\n\n    pub async fn receive_prekey_op(&self,"))
quiet("c17-recv-key", "all", (KHF, "        if id == Public.id() {\n            return Ok(());\n        }\n", "        if *key_op.issuer() == Public.verifying_key() {\n            return Ok(());\n        }\n"))
quiet("c17-card-match", "all", (KHF, "        let result = if let Some(indie) = self.get_individual(contact_card.id()).await {\n            indie\n                .lock()\n                .await\n                .receive_prekey_op(contact_card.op().dupe())?;\n            indie.dupe()\n        } else {\n            let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));\n            self.register_individual(new_user.dupe()).await;\n            new_user\n        };", "        let result = match self.get_individual(contact_card.id()).await {\n            None => {\n                let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));\n                self.register_individual(new_user.dupe()).await;\n                new_user\n            }\n            Some(indie) => {\n                let op = contact_card.op().dupe();\n                indie.lock().await.receive_prekey_op(op)?;\n                indie\n            }\n        };"))
quiet("c17-pick-if", "all", (INDF, "        if self.id == IndividualId(Public.id()) {\n            return Public.share_key_ref();\n        }\n", "        let public = IndividualId::from(Public.id());\n        if public == self.id() {\n            return Public.share_key_ref();\n        }\n"))
quiet("c17-group-map", "all", (GRPP, "            if *id == public_id {\n                prekeys.insert(\n                    IndividualId(public_id),\n                    crate::principal::public::Public.share_key(),\n                );\n            } else {\n                prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());\n            }", "            if *id != public_id {\n                for (k, v) in agent.pick_individual_prekeys(doc_id).await {\n                    prekeys.insert(k, v);\n                }\n            } else {\n                let well_known = crate::principal::public::Public.share_key();\n                prekeys.insert(IndividualId(public_id), well_known);\n            }"))
quiet("c17-agent-vars", "all", (AGTF, "                    let (id, prekey) = {\n                        let guard = i.lock().await;\n                        (guard.id(), *guard.pick_prekey(doc_id))\n                    };\n                    result.insert(id, prekey);", "                    let guard = i.lock().await;\n                    let prekey = *guard.pick_prekey(doc_id);\n                    result.insert(guard.id(), prekey);"))
quiet("c17-add-clone", "all", (KDOC, "        for (id, prekey) in prekeys.iter() {\n            if let Some(op) = self.cgka_mut()?.add(*id, *prekey, signer).await? {\n                acc.push(op);\n            }\n        }", "        for (id, prekey) in prekeys {\n            let cgka = self.cgka_mut()?;\n            match cgka.add(*id, *prekey, signer).await? {\n                Some(op) => acc.push(op),\n                None => {}\n            }\n        }"))
quiet("c17-peer-insert", "all", (PEERF, "                HashMap::from_iter([(*id, *prekey)])", "                let mut only = HashMap::new();\n                only.insert(*id, *prekey);\n                only"))
catch("c17-subject", "C17", (KHF, "        if subject_id == Public.id() {\n            return Ok(());\n        }\n", "        if subject_id == Public.id() && delegation.payload.proof.is_none() {\n            return Ok(());\n        }\n"))
catch("c17-subject-late", "C17", (KHF, "        // Anyone can sign for Public, which must stay an individual.\n        if subject_id == Public.id() {\n            return Ok(());\n        }\n", ""), (KHF, "        if !found {\n            let group = Group::new(", "        if !found && subject_id != Public.id() {\n            let group = Group::new("))
quiet("c17-subject-early", "all", (KHF, "        // Anyone can sign for Public, which must stay an individual.\n        if subject_id == Public.id() {\n            return Ok(());\n        }\n", "        let public = IndividualId(Public.id());\n        if public == IndividualId(subject_id) {\n            tracing::debug!(\"ignored\");\n            return Ok(());\n        }\n"))

INS = "        {\n            let mut locked_groups = self.groups.lock().await;\n            locked_groups.insert(group_id, group.dupe());\n        }\n"
REM = "        {\n            // Only once the group is known, so that the identifier is never unknown\n            let mut locked_individuals = self.individuals.lock().await;\n            locked_individuals.remove(&IndividualId(group_id.into()));\n        }\n"
GI = "            let individual = self.get_individual(IndividualId(subject_id)).await;\n"
catch("c16-remove-first", "C16", (KHF, INS + REM, REM + INS))
catch("c16-remove-lookup", "C16", (KHF, GI, "            let individual = {\n                let mut locked_individuals = self.individuals.lock().await;\n                locked_individuals.remove(&IndividualId(subject_id))\n            };\n"))
catch("c16-remove-other", "C16", (KHF, "            locked_individuals.remove(&IndividualId(group_id.into()));", "            locked_individuals.remove(&IndividualId((*head_issuer).into()));"), (KHF, "        let indie = individual.lock().await.clone();\n        let group = Arc", "        let indie = individual.lock().await.clone();\n        let head_issuer = &head.payload().delegate.verifying_key();\n        let head_issuer = &{ *head_issuer };\n        let group = Arc"))
catch("c16-peer-kind", "C16", (KHF, "        if self.get_peer(peer.id()).await.is_some() {\n            return false;", "        if self.get_individual(IndividualId(peer.id())).await.is_some() {\n            return false;"))
catch("c16-individual-unchecked", "C16", (KHF, "            if locked_individuals.contains_key(&id) {\n                return false;\n            }\n", ""))
catch("c16-individual-own", "C16", (KHF, "            if locked_individuals.contains_key(&id) {\n                return false;\n            }\n", "            if locked_individuals.contains_key(&self.id()) && id == self.id() {\n                return false;\n            }\n"))
catch("c16-archive-replace", "C16", (KHF, "            if let Some(our_indie) = locked_indies.get_mut(&id) {\n                our_indie.merge_async(indie).await;\n            } else {\n                locked_indies.insert(id, Arc::new(Mutex::new(indie)));\n            }", "            if let Some(our_indie) = locked_indies.get_mut(&id) {\n                our_indie.merge_async(indie.clone()).await;\n            }\n            locked_indies.insert(id, Arc::new(Mutex::new(indie)));"))
catch("c16-archive-swap", "C16", (KHF, "                our_indie.merge_async(indie).await;\n", "                *our_indie = Arc::new(Mutex::new(indie));\n"))
catch("c16-prune", "C16", (KHF, "        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };\n        for doc", "        self.individuals.lock().await.retain(|_, i| Arc::strong_count(i) > 1);\n        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };\n        for doc"))
catch("c16-group-issuer", "C16", (KHF, "            .contains_key(&GroupId(root_delegation.subject_id()))", "            .contains_key(&GroupId(root_delegation.issuer.into()))"))
catch("c16-state-issuer", "C16", (ST, "        let id = GroupId(delegation_head.subject_id());\n", "        let id = GroupId(delegation_head.verifying_key().into());\n"))
catch("c16-merge-replace", "C16", (KHF, "                if let Some(og_indie) = locked_indies.get(&id) {\n                    og_indie\n                        .lock()\n                        .await\n                        .merge(forked_indie.lock().await.clone())\n                } else {\n                    locked_indies.insert(id, forked_indie);\n                }", "                if let Some(og_indie) = locked_indies.insert(id, forked_indie.dupe()) {\n                    forked_indie.lock().await.merge(og_indie.lock().await.clone())\n                }"))
catch("c16-card-insert", "C16", (KHF, "        } else {\n            let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));\n            self.register_individual(new_user.dupe()).await;", "        } else {\n            let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));\n            self.individuals.lock().await.insert(new_user.lock().await.id(), new_user.dupe());"), (KHF, "        let result = if let Some(indie) = self.get_individual(contact_card.id()).await {", "        let result = if let Some(indie) = self.get_individual(contact_card.id()).await.filter(|_| contact_card.op().is_add()) {"), ("keyhive_core/src/principal/individual/op.rs", "impl KeyOp {\n", "impl KeyOp {\n    pub fn is_add(&self) -> bool {\n        matches!(self, KeyOp::Add(_))\n    }\n\n"))
catch("c16-gendoc", "C16", (KHF, "            if self.get_agent(peer.id()).await.is_none() {\n                self.register_peer(peer.dupe()).await;\n            }", "            match peer {\n                Peer::Group(id, g) => {\n                    self.groups.lock().await.insert(*id, g.dupe());\n                }\n                _ => {\n                    self.register_peer(peer.dupe()).await;\n                }\n            }"))
catch("c16-revoke-clear", "C16", (KHF, "            let individual = self.get_individual(IndividualId(id)).await;\n", "            let individual = std::mem::take(&mut *self.individuals.lock().await).remove(&IndividualId(id));\n"))
quiet("c16-entry", "all", (KHF, "            if locked_individuals.contains_key(&id) {\n                return false;\n            }\n\n            locked_individuals.insert(id, individual.dupe());\n", "            match locked_individuals.entry(id) {\n                std::collections::hash_map::Entry::Occupied(_) => return false,\n                std::collections::hash_map::Entry::Vacant(slot) => {\n                    slot.insert(individual.dupe());\n                }\n            }\n"))
quiet("c16-forget", "all", (KHF, REM, "        self.forget_individual(group_id).await;\n"), (KHF, "    #[instrument(skip_all)]\n    pub async fn promote_individual_to_group(", "    /// Drops an individual that is now known as a group.\n    async fn forget_individual(&self, group_id: GroupId) {\n        let id = IndividualId(group_id.into());\n        self.individuals.lock().await.remove(&id);\n    }\n\n    #[instrument(skip_all)]\n    pub async fn promote_individual_to_group("))
quiet("c16-insert-helper", "all", (KHF, INS, "        self.remember_group(group_id, &group).await;\n"), (KHF, "    #[instrument(skip_all)]\n    pub async fn promote_individual_to_group(", "    async fn remember_group(&self, id: GroupId, group: &Arc<Mutex<Group<F, S, T, L>>>) {\n        self.groups.lock().await.insert(id, group.dupe());\n    }\n\n    #[instrument(skip_all)]\n    pub async fn promote_individual_to_group("))
quiet("c16-peer-match", "all", (KHF, "        if self.get_peer(peer.id()).await.is_some() {\n            return false;\n        }\n", "        let known = self.get_peer(peer.id()).await;\n        if !known.is_none() {\n            return false;\n        }\n"))
quiet("c16-recv-direct", "all", (KHF, GI, "            let individual = { self.individuals.lock().await.get(&IndividualId(subject_id)).cloned() };\n"))
quiet("c16-group-var", "all", (KHF, "            let group_id = group.lock().await.group_id();\n            let mut locked_groups = self.groups.lock().await;\n            locked_groups.insert(group_id, group.dupe());\n        }\n        true", "            let id = { group.lock().await.group_id() };\n            self.groups.lock().await.insert(id, group);\n        }\n        true"))
quiet("c16-archive-match", "all", (KHF, "            if let Some(our_indie) = locked_indies.get_mut(&id) {\n                our_indie.merge_async(indie).await;\n            } else {\n                locked_indies.insert(id, Arc::new(Mutex::new(indie)));\n            }", "            match locked_indies.get(&id).cloned() {\n                None => {\n                    locked_indies.insert(id, Arc::new(Mutex::new(indie)));\n                }\n                Some(ours) => ours.merge_async(indie).await,\n            }"))

# ---- C14
ARGF, AAF, DAF = "keyhive_core/src/archive.rs", "keyhive_core/src/principal/active/archive.rs", "keyhive_core/src/principal/document/archive.rs"
catch("c14-save-pend-filter", "C14", (KHF, "            .map(|event| event.as_ref().clone())\n            .collect();\n\n        Archive {", "            .filter(|event| !matches!(event.as_ref(), StaticEvent::PrekeysExpanded(_)))\n            .map(|event| event.as_ref().clone())\n            .collect();\n\n        Archive {"))
catch("c14-save-pend-fmap", "C14", (KHF, "            .map(|event| event.as_ref().clone())\n            .collect();\n\n        Archive {", "            .filter_map(|event| match event.as_ref() { StaticEvent::PrekeysExpanded(_) => None, e => Some(e.clone()) })\n            .collect();\n\n        Archive {"))
catch("c14-save-pend-take", "C14", (KHF, "            .map(|event| event.as_ref().clone())\n            .collect();\n\n        Archive {", "            .take(64)\n            .map(|event| event.as_ref().clone())\n            .collect();\n\n        Archive {"))
catch("c14-save-indie-cond", "C14", (KHF, "                individuals.insert(*k, arc.lock().await.clone());", "                if *k != self.id() {\n                    continue;\n                }\n                individuals.insert(*k, arc.lock().await.clone());"))
catch("c14-save-group-cond", "C14", (KHF, "                groups.insert(*k, arc.lock().await.into_archive());", "                let g = arc.lock().await;\n                if !g.members().is_empty() {\n                    groups.insert(*k, g.into_archive());\n                }"))
catch("c14-save-cgka-none", "C14", (DOCF, "            cgka: self.cgka.clone(),\n        }\n    }", "            cgka: self.cgka.clone().filter(|c| c.has_pcs_key()),\n        }\n    }"))
catch("c14-save-heads", "C14", (DOCF, "            content_state: self.content_state.clone(),\n            cgka", "            content_state: self.content_heads.clone(),\n            cgka"))
catch("c14-save-rev-heads", "C14", (ST, "            revocation_heads: self.revocation_heads.keys().map(|d| d.coerce()).collect(),", "            revocation_heads: self.revocation_heads.keys().take(1).map(|d| d.coerce()).collect(),"))
catch("c14-save-prekeys", "C14", (ACTF, "            prekey_pairs: self.prekey_pairs.lock().await.clone(),\n            individual: self.individual", "            prekey_pairs: {\n                let known = self.individual.lock().await.prekeys.clone();\n                self.prekey_pairs.lock().await.iter().filter(|(k, _)| known.contains(k)).map(|(k, v)| (*k, *v)).collect()\n            },\n            individual: self.individual"))
catch("c14-save-ops-norev", "C14", (KHF, "                .map(|(k, v)| (k.coerce(), v.into()))\n                .collect()", "                .filter(|(_, v)| v.is_delegation())\n                .map(|(k, v)| (k.coerce(), v.into()))\n                .collect()"))
catch("c14-load-pend", "C14", (KHF, "            pending_events.push(Arc::new(event.clone()));", "            if !matches!(event, StaticEvent::CgkaOperation(_)) {\n                pending_events.push(Arc::new(event.clone()));\n            }"))
catch("c14-load-indie", "C14", (KHF, "            individuals.insert(*k, Arc::new(Mutex::new(v.clone())));", "            if archive.groups.contains_key(&GroupId(k.0)) {\n                continue;\n            }\n            individuals.insert(*k, Arc::new(Mutex::new(v.clone())));"))
catch("c14-load-store", "C14", (KHF, "            delegations,\n            revocations,\n            pending_events: Arc::new(Mutex::new(pending_events)),", "            delegations,\n            revocations: Arc::new(Mutex::new(RevocationStore::new())),\n            pending_events: Arc::new(Mutex::new(pending_events)),"))
catch("c14-load-after", "C14", (KHF, "                            can: sd.payload.can,\n                            after_revocations,\n                            after_content: sd.payload.after_content.clone(),", "                            can: sd.payload.can,\n                            after_revocations: vec![],\n                            after_content: sd.payload.after_content.clone(),"))
catch("c14-load-after-content", "C14", (KHF, "                            revoke,\n                            proof,\n                            after_content: sr.payload.after_content.clone(),", "                            revoke,\n                            proof,\n                            after_content: Default::default(),"))
catch("c14-load-proof", "C14", (KHF, "                    let proof = if let Some(proof_digest) = sr.payload.proof {\n                        Some(delegations.lock().await.get(&proof_digest.coerce()).ok_or(", "                    let proof = if let Some(proof_digest) = sr.payload.proof.filter(|p| *p != sr.payload.revoke) {\n                        Some(delegations.lock().await.get(&proof_digest.coerce()).ok_or("))
catch("c14-load-revheads", "C14", (KHF, "                    .ok_or(TryFromArchiveError::MissingRevocation(rev_hash.coerce()))?;\n                group.state.revocation_heads.insert(actual_rev.dupe());", "                    .ok_or(TryFromArchiveError::MissingRevocation(rev_hash.coerce()))?;\n                if actual_rev.payload.proof.is_none() {\n                    continue;\n                }\n                group.state.revocation_heads.insert(actual_rev.dupe());"))
catch("c14-load-dlgskip", "C14", (KHF, "                if actual_dlg.payload().proof.is_none()\n                    && actual_dlg.issuer != group.verifying_key()\n                {\n                    tracing::warn!(", "                if actual_dlg.issuer != group.verifying_key() && group.state.delegation_heads.len() > 64\n                {\n                    tracing::warn!("))
catch("c14-load-cgka", "C14", (DOCF, "            cgka: archive.cgka,\n        })", "            cgka: None,\n        })"))
catch("c14-load-content", "C14", (DOCF, "            content_state: archive.content_state,\n            known", "            content_state: HashSet::new(),\n            known"))
catch("c14-load-prekeys", "C14", (ACTF, "            prekey_pairs: Arc::new(Mutex::new(archive.prekey_pairs.clone())),", "            prekey_pairs: Arc::new(Mutex::new(archive.prekey_pairs.iter().filter(|(k, _)| archive.individual.prekeys.contains(k)).map(|(k, v)| (*k, *v)).collect())),"))
catch("c14-ingest-pend", "C14", (KHF, "        events.extend(archive.pending_events);\n", ""))
catch("c14-ingest-cgka-first", "C14", (KHF, "                    for op in epoch.iter() {\n                        events.push(StaticEvent::CgkaOperation(", "                    for op in epoch.iter().take(1) {\n                        events.push(StaticEvent::CgkaOperation("))
catch("c14-ingest-cgka-known", "C14", (KHF, "            if let Some(cgka) = doc.cgka {\n                for epoch", "            if let Some(cgka) = doc.cgka.filter(|c| c.has_pcs_key()) {\n                for epoch"))
catch("c14-ingest-prekeys", "C14", (KHF, "                locked_active\n                    .prekey_pairs\n                    .lock()\n                    .await\n                    .extend(archive.active.prekey_pairs);", "                let mut pairs = locked_active.prekey_pairs.lock().await;\n                if pairs.is_empty() {\n                    pairs.extend(archive.active.prekey_pairs);\n                }"))
catch("c14-ingest-indie-new", "C14", (KHF, "                our_indie.merge_async(indie).await;\n            } else {", "                tracing::trace!(?id, known = our_indie.try_lock().is_some(), \"known\");\n            } else {"))
catch("c14-ingest-norev", "C14", (KHF, "            .map(|(_, op)| match op {\n                StaticMembershipOperation::Delegation(signed) => StaticEvent::Delegated(signed),\n                StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),\n            })", "            .filter_map(|(_, op)| match op {\n                StaticMembershipOperation::Delegation(signed) => Some(StaticEvent::Delegated(signed)),\n                StaticMembershipOperation::Revocation(_) => None,\n            })"))
catch("c14-serde-skip", "C14", (CGF, "    pending_ops_for_structural_change: bool,\n", "    #[serde(skip)]\n    pending_ops_for_structural_change: bool,\n"))
catch("c14-serde-skip-de", "C14", (DAF, "    pub(crate) content_state: HashSet<T>,", "    #[serde(skip_deserializing, default = \"HashSet::new\")]\n    pub(crate) content_state: HashSet<T>,"))
catch("c14-camap-merge", "C14", (BCG if False else "keyhive_core/src/util/content_addressed_map.rs", "        for (k, v) in other.0 {\n            self.0.entry(k).or_insert(v);\n        }", "        for (k, v) in other.0 {\n            if self.0.len() >= 128 {\n                break;\n            }\n            self.0.entry(k).or_insert(v);\n        }"))
catch("c14-static-dlg", "C14", (DL, "            after_content: delegation.after_content,\n        }", "            after_content: Default::default(),\n        }"))
catch("c14-topsort-heads", "C14", ("keyhive_core/src/principal/group/membership_operation.rs", "        for rev in revocation_heads.values() {\n            explore.push(rev.dupe().into());", "        for rev in revocation_heads.values() {\n            if !explore.is_empty() && rev.payload.proof.is_none() {\n                continue;\n            }\n            explore.push(rev.dupe().into());"))
quiet("c14-q-collect", "all", (KHF, "        let mut pending_events = Vec::new();\n        for event in &archive.pending_events {\n            pending_events.push(Arc::new(event.clone()));\n        }\n", "        let pending_events: Vec<_> = archive.pending_events.iter().cloned().map(Arc::new).collect();\n"))
quiet("c14-q-indies", "all", (KHF, "        let mut individuals = HashMap::new();\n        for (k, v) in archive.individuals.iter() {\n            individuals.insert(*k, Arc::new(Mutex::new(v.clone())));\n        }\n", "        let mut individuals: HashMap<_, _> = archive\n            .individuals\n            .iter()\n            .map(|(k, v)| (*k, Arc::new(Mutex::new(v.clone()))))\n            .collect();\n"))
quiet("c14-q-save-loop", "all", (KHF, "        let pending_events: Vec<_> = self\n            .pending_events\n            .lock()\n            .await\n            .iter()\n            .map(|event| event.as_ref().clone())\n            .collect();\n\n        Archive {", "        let mut pending_events = Vec::new();\n        for event in self.pending_events.lock().await.iter() {\n            let event: StaticEvent<T> = event.as_ref().clone();\n            pending_events.push(event);\n        }\n\n        Archive {"))
quiet("c14-q-save-helper", "all", (KHF, "        let mut individuals = HashMap::new();\n        {\n            let locked_individuals = self.individuals.lock().await;\n            for (k, arc) in locked_individuals.iter() {\n                individuals.insert(*k, arc.lock().await.clone());\n            }\n        }\n", "        let individuals = self.archived_individuals().await;\n"),
      (KHF, "    #[instrument(skip_all)]\n    pub async fn into_archive(&self)", "    async fn archived_individuals(&self) -> HashMap<IndividualId, Individual> {\n        let locked = self.individuals.lock().await;\n        let mut out = HashMap::with_capacity(locked.len());\n        for (id, individual) in locked.iter() {\n            let copy = individual.lock().await.clone();\n            out.insert(*id, copy);\n        }\n        out\n    }\n\n    #[instrument(skip_all)]\n    pub async fn into_archive(&self)"))
quiet("c14-q-ingest-ops", "all", (KHF, "                for epoch in cgka.ops().map_err(ReceiveCgkaOpError::from)? {\n                    for op in epoch.iter() {\n                        events.push(StaticEvent::CgkaOperation(Box::new(op.as_ref().clone())));\n                    }\n                }", "                let epochs = cgka.ops().map_err(ReceiveCgkaOpError::from)?;\n                events.extend(epochs.iter().flat_map(|epoch| epoch.iter()).map(|op| {\n                    StaticEvent::CgkaOperation(Box::new(op.as_ref().clone()))\n                }));"))
quiet("c14-q-load-proof", "all", (KHF, "                    let proof = if let Some(proof_digest) = sr.payload.proof {\n                        Some(delegations.lock().await.get(&proof_digest.coerce()).ok_or(\n                            TryFromArchiveError::MissingDelegation(proof_digest.coerce()),\n                        )?)\n                    } else {\n                        None\n                    };", "                    let proof = match sr.payload.proof {\n                        None => None,\n                        Some(digest) => match delegations.lock().await.get(&digest.coerce()) {\n                            None => return Err(TryFromArchiveError::MissingDelegation(digest.coerce())),\n                            found => found,\n                        },\n                    };"))
SYM = "keyhive_crypto/src/symmetric_key.rs"
SHK = "keyhive_crypto/src/share_key.rs"
ENCF = "beekem/src/encrypted.rs"
PCSF = "beekem/src/pcs_key.rs"
BKEYS = "beekem/src/keys.rs"
SSF = "beekem/src/secret_store.rs"
catch("c08-instrument", "C08", (SYM, "    #[instrument(skip_all)]\n    pub fn try_encrypt(", "    #[instrument(skip(self))]\n    pub fn try_encrypt("))
catch("c08-instrument-ret", "C08", (SYM, "    #[instrument(skip_all)]\n    pub fn try_open(", "    #[instrument(skip_all, ret)]\n    pub fn try_open("))
catch("c08-derive-debug", "C08", (SYM, "        \"<SymmetricKey>\".fmt(f)", "        f.debug_tuple(\"SymmetricKey\").field(&self.0).finish()"))
catch("c08-debug-prefix", "C08", (SHK, "impl fmt::Debug for ShareSecretKey {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        write!(f, \"ShareSecretKey(SECRET)\")", "impl fmt::Debug for ShareSecretKey {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        write!(f, \"ShareSecretKey({:02x}..)\", self.0[0])"))
catch("c08-trace-derived", "C08", (PCSF, "        let symmetric_key = SymmetricKey::derive_from_bytes(&app_secret_bytes);", "        tracing::trace!(key = ?app_secret_bytes, \"derived\");\n        let symmetric_key = SymmetricKey::derive_from_bytes(&app_secret_bytes);"))
catch("c08-trace-content", "C08", (DOCF, "        let application_secret_key = app_secret.key();\n", "        let application_secret_key = app_secret.key();\n        tracing::debug!(\"encrypting {}\", String::from_utf8_lossy(content));\n"))
catch("c08-error-bytes", "C08", (SSF, "        let arr: [u8; 32] = decrypted.try_into().map_err(|_| CgkaError::Conversion)?;", "        let arr: [u8; 32] = decrypted\n            .as_slice()\n            .try_into()\n            .map_err(|_| CgkaError::Decryption(alloc::format!(\"unexpected secret {decrypted:?}\")))?;"))
catch("c08-hex-key", "C08", (ENCF, "    let key = sk.derive_symmetric_key(paired_pk);\n", "    let key = sk.derive_symmetric_key(paired_pk);\n    tracing::trace!(\"sealing {secret:x}\");\n"))
catch("c08-hex-helper", "C08", (ENCF, "    let key = sk.derive_symmetric_key(paired_pk);\n", "    let key = sk.derive_symmetric_key(paired_pk);\n    tracing::trace!(\"with {}\", keyhive_crypto::hex::bytes_to_hex_string(key.as_slice()));\n"))
catch("c08-fields", "C08", (SHK, "    #[instrument]\n    pub fn ratchet_forward(", "    #[instrument(fields(from = ?self.as_slice()))]\n    pub fn ratchet_forward("))
catch("c08-before-seal", "C08", (ENCF, "    let nonce = Siv::new(&key, &ciphertext, doc_id);\n", "    let nonce = Siv::new(&key, &ciphertext, doc_id);\n    tracing::trace!(bytes = ?ciphertext, \"sealing\");\n"))
catch("c08-decrypted", "C08", (DOCF, "            .map_err(DecryptError::DecryptionFailed)?;\n\n        // FIXME for some", "            .map_err(DecryptError::DecryptionFailed)?;\n        tracing::trace!(head = ?plaintext.first(), \"decrypted\");\n\n        // FIXME for some"))
catch("c08-shared", "C08", (SHK, "            .diffie_hellman(&other.0)\n            .to_bytes();\n\n        Self::derive_from_bytes(bytes.as_slice())", "            .diffie_hellman(&other.0)\n            .to_bytes();\n        if bytes == [0; 32] {\n            tracing::warn!(\"weak shared secret {:?}\", bytes);\n        }\n\n        Self::derive_from_bytes(bytes.as_slice())"))
catch("c08-signer", "C08", ("keyhive_crypto/src/signer/memory.rs", "#[derive(Debug, Clone)]\npub struct MemorySigner(", "impl core::fmt::Debug for MemorySigner {\n    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {\n        f.debug_tuple(\"MemorySigner\").field(&self.0.to_bytes()).finish()\n    }\n}\n\n#[derive(Clone)]\npub struct MemorySigner("))
quiet("c08-q-len", "all", (SYM, "        self.to_xchacha()\n            .encrypt_in_place", "        tracing::trace!(len = data.len(), \"encrypting\");\n        self.to_xchacha()\n            .encrypt_in_place"))
quiet("c08-q-ciphertext", "all", (ENCF, "    Ok(EncryptedSecret::new(nonce, ciphertext, *paired_pk))", "    tracing::trace!(?ciphertext, \"sealed\");\n    Ok(EncryptedSecret::new(nonce, ciphertext, *paired_pk))"))
quiet("c08-q-public", "all", (SHK, "        let bytes = self.to_bytes();\n        Self::derive_from_bytes", "        tracing::trace!(from = ?self.share_key(), \"ratchet\");\n        let bytes = self.to_bytes();\n        Self::derive_from_bytes"))
quiet("c08-q-hash", "all", (KDOC, "        let application_secret_key = app_secret.key();\n", "        let application_secret_key = app_secret.key();\n        tracing::debug!(key = ?application_secret_key, reference = ?content_ref, \"encrypting\");\n"))
quiet("c08-q-match", "all", (BKEYS, "        key.try_decrypt(encrypted.nonce, &mut buf)\n            .map_err(|e| CgkaError::Decryption(e.to_string()))?;\n        Ok(buf)", "        match key.try_decrypt(encrypted.nonce, &mut buf) {\n            Ok(()) => Ok(buf),\n            Err(e) => Err(CgkaError::Decryption(alloc::format!(\"{e}\"))),\n        }"))
quiet("c08-q-seal", "all", (SYM, "        let mut buf = plaintext.to_vec();\n        self.try_encrypt(nonce, &mut buf)?;\n        let mut out = Vec::with_capacity(nonce.as_bytes().len() + buf.len());\n        out.extend_from_slice(nonce.as_bytes());\n        out.extend_from_slice(&buf);\n        Ok(out)", "        let mut sealed = Vec::from(plaintext);\n        self.try_encrypt(nonce, &mut sealed)?;\n        Ok([nonce.as_bytes().as_slice(), sealed.as_slice()].concat())"))
catch("c07-generate-doc", "C07", (DOCF, "        let group_members = group.pick_individual_prekeys(doc_id).await;", "        let locked_csprng = csprng.lock().await;\n        let group_members = group.pick_individual_prekeys(doc_id).await;\n        drop(locked_csprng);"))
catch("c07-encrypt-order", "C07", (KHF, "            let mut locked_doc = doc.lock().await;\n            let mut locked_csprng = self.csprng.lock().await;\n            locked_doc\n", "            let mut locked_csprng = self.csprng.lock().await;\n            let mut locked_doc = doc.lock().await;\n            locked_doc\n"))
catch("c07-revocations", "C07", (KHF, "            let all_agent_revocations: Vec<_> = self\n                .revocations\n                .lock()\n                .await\n                .all_agent_revocations()", "            let locked = self.revocations.lock().await;\n            let all_agent_revocations: Vec<_> = locked\n                .all_agent_revocations()"))
catch("c07-reachable", "C07", (KHF, "        let active_id = { self.active.lock().await.id() };\n        self.docs_reachable_by_agent(&Agent::Active(active_id, active))\n            .await", "        self.docs_reachable_by_agent(&Agent::Active(self.active.lock().await.id(), active))\n            .await"))
catch("c07-cgka-active", "C07", (KHF, "                (locked_active.id(), locked_active.prekey_pairs.dupe())\n            };\n", "                (locked_active.id(), locked_active.prekey_pairs.dupe())\n            };\n            let _guard = self.active.lock().await;\n"))
catch("c07-again-doc", "C07", (KHF, "        self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;\n        Ok((op, new_share_key, new_share_secret_key))", "        let locked = doc.lock().await;\n        self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;\n        let _ = self.try_pcs_key_hash(doc.dupe()).await;\n        drop(locked);\n        Ok((op, new_share_key, new_share_secret_key))"))
catch("c07-register", "C07", (KHF, "        let g = Arc::new(Mutex::new(group));\n        self.groups.lock().await.insert(group_id, g.dupe());\n        Ok(g)", "        let g = Arc::new(Mutex::new(group));\n        let locked = g.lock().await;\n        self.groups.lock().await.insert(group_id, g.dupe());\n        drop(locked);\n        Ok(g)"))
catch("c07-match", "C07", (KHF, "    pub async fn reachable_docs(&self)", "    pub async fn refresh_prekeys(&self) -> Result<(), SigningError> {\n        match self.active.lock().await.prekey_pairs.lock().await.len() {\n            0 => self.expand_prekeys().await.map(|_| ()),\n            _ => Ok(()),\n        }\n    }\n\n    #[instrument(skip_all)]\n    pub async fn reachable_docs(&self)"))
quiet("c07-q-scope", "all", (KHF, "            let mut locked_doc = doc.lock().await;\n            let mut locked_csprng = self.csprng.lock().await;\n            locked_doc\n", "            let mut locked_doc = doc.lock().await;\n            let csprng = self.csprng.dupe();\n            let mut locked_csprng = csprng.lock().await;\n            locked_doc\n"))
quiet("c07-q-drop", "all", (KHF, "        let active_id = { self.active.lock().await.id() };\n        self.docs_reachable_by_agent(&Agent::Active(active_id, active))\n            .await", "        let locked = active.lock().await;\n        let active_id = locked.id();\n        drop(locked);\n        let agent = Agent::Active(active_id, active);\n        self.docs_reachable_by_agent(&agent).await"))
quiet("c07-q-helper", "all", (KHF, "        let active_id = { self.active.lock().await.id() };\n        self.docs_reachable_by_agent(&Agent::Active(active_id, active))\n            .await", "        let agent = Agent::Active(self.own_id().await, active);\n        self.docs_reachable_by_agent(&agent).await"), (KHF, "    pub async fn reachable_docs(&self)", "    async fn own_id(&self) -> IndividualId {\n        self.active.lock().await.id()\n    }\n\n    #[instrument(skip_all)]\n    pub async fn reachable_docs(&self)"))
