"""Small edits for mut.py: bugs (with the properties that have to report them) and behaviour-preserving rewrites (no property)."""
V, R, Q, S, H, B, W, QB, CR = 'src/validation.rs', 'src/rr.rs', 'src/query.rs', 'src/ser.rs', 'src/http.rs', 'src/base32.rs', 'wasmpack/src/lib.rs', 'src/query.rs', 'src/crypto/hash.rs'
MUTS = []


def m(id, props, *edits):
    MUTS.append((id, props.split() if props else [], list(edits)))


# ---- C01
m('01-protocol', 'C01', (V, 'if dnskey.protocol != 3 { continue; }', 'if dnskey.protocol > 3 { continue; }'))
m('01-alg', 'C01', (V, 'if dnskey.alg != sig.alg { continue; }', ''))
m('01-tag', 'C01', (V, 'if dnskey.key_tag() == sig.key_tag {', 'if dnskey.key_tag() as u8 == sig.key_tag as u8 {'))
m('01-flag', 'C01', (V, 'if dnskey.flags & 0b1_0000_0000 == 0 { continue; }', 'if dnskey.flags == 0 { continue; }'))
m('01-nosig', 'C01', (V, '\t\t\tsig_validation?;\n', '\t\t\tif !records.is_empty() { sig_validation?; }\n'))
m('01-unsup-add', 'C01', (V, 'Err(ValidationError::UnsupportedAlgorithm) => continue,', 'Err(ValidationError::UnsupportedAlgorithm) if rrsig.ty == DS::TYPE => continue,\n\t\t\t\tErr(ValidationError::UnsupportedAlgorithm) => {},'))
m('01-continue', 'C01 C11', (V, '''					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
					return Err(ValidationError::Invalid);
				}
			}''', '''					continue;
				}
			}'''))
m('01-name', 'C01', (V, '.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);', '.filter(|rr| rr.ty() == rrsig.ty);'))
m('01-first', 'C01', (V, '.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);', '.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty).take(8);'))
m('01-keyname', 'C01', (V, 'rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)', 'rrsig.key_name.as_str().ends_with(zone) && rrsig.ty != DnsKey::TYPE)'))
# ---- C02
m('02-8', 'C02', (V, '				8|10 => {\n					let alg = if sig.alg == 8 {', '				8|10 => {\n					let alg = if sig.alg <= 10 {'))
m('02-5', 'C02', (V, '				8|10 => {', '				5|8|10 => {'))
m('02-16', 'C02', (V, '				15 => {', '				15|16 => {'))
m('02-12', 'C02', (V, '				13|14 => {', '				12|13|14 => {'))
m('02-rsa1', 'C02', (V, 'exponent_length = ((pubkey[1] as usize) << 8) | (pubkey[2] as usize);', 'exponent_length = ((pubkey[2] as usize) << 8) | (pubkey[1] as usize);'))
m('02-rsa2', 'C02', (V, '		pos += 3;', '		pos += 2;'))
m('02-rsa3', 'C02', (V, 'exponent_length = pubkey[0] as usize;', 'exponent_length = (pubkey[0] & 0x7f) as usize;'))
m('02-sha1', 'C02', (V, '1 if trust_sha1 => crypto', '1 => crypto'))
m('02-sha1b', 'C02', (V, 'all(|ds| ds.digest_type != 2 && ds.digest_type != 4)', 'all(|ds| ds.digest_type != 2)'))
m('02-sha1c', 'C02', (V, 'all(|ds| ds.digest_type != 2 && ds.digest_type != 4)', 'any(|ds| ds.digest_type != 2 && ds.digest_type != 4)'))
m('02-sha1d', 'C02', (V, 'all(|ds| ds.digest_type != 2 && ds.digest_type != 4)', 'all(|ds| ds.alg != dnskey.alg || ds.digest_type != 2 && ds.digest_type != 4)'))
m('02-d4', 'C02', (V, '					2 => crypto::hash::Hasher::sha256(),', '					2|4 => crypto::hash::Hasher::sha256(),'))
m('02-ec', 'C02', (V, 'key.push(0x4);', 'key.push(0x6);'))
MUTS[:] = [x for x in MUTS if x]

# ================================================================= behaviour-preserving rewrites
m('eq-comment', '', (V, 'fn resolve_time(time: u32) -> u64 {', '// a comment\n#[inline]\nfn resolve_time(time: u32) -> u64 {'))
m('eq-keyok', '', (V, '''			// Protocol must be 3, otherwise its not DNSSEC
			if dnskey.protocol != 3 { continue; }
			// The ZONE flag must be set if we're going to validate RRs with this key.
			if dnskey.flags & 0b1_0000_0000 == 0 { continue; }
			if dnskey.alg != sig.alg { continue; }
''', '''			if !key_usable(dnskey, sig) { continue; }
'''), (V, "fn verify_rrsig<'a", '''fn key_usable(key: &DnsKey, sig: &RRSig) -> bool {
	key.protocol == 3 && (key.flags >> 8) & 1 == 1 && key.alg == sig.alg
}

fn verify_rrsig<'a'''))
m('eq-tagnest', '', (V, 'if dnskey.key_tag() == sig.key_tag {\n			// Protocol', 'if dnskey.key_tag() != sig.key_tag { continue; }\n		{\n			// Protocol'))
m('eq-algs', '', (V, '''				8|10 => {
					let alg = if sig.alg == 8 {
						&signature::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY
					} else {
						&signature::RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY
					};
''', '''				8|10 => {
					let alg = match sig.alg {
						10 => &signature::RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY,
						_ => &signature::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY,
					};
'''))
m('eq-sigcheck', '', (V, '			sig_validation?;\n\n			return Ok(());', '			return sig_validation;'))
m('eq-header', '', (V, '''			signed_data.extend_from_slice(&sig.ty.to_be_bytes());
			signed_data.extend_from_slice(&sig.alg.to_be_bytes());
			signed_data.extend_from_slice(&sig.labels.to_be_bytes());
			signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());
			signed_data.extend_from_slice(&sig.expiration.to_be_bytes());
			signed_data.extend_from_slice(&sig.inception.to_be_bytes());
			signed_data.extend_from_slice(&sig.key_tag.to_be_bytes());
			write_name(&mut signed_data, &sig.key_name);
''', '''			write_sig_header(sig, &mut signed_data);
'''), (V, "fn verify_rrsig<'a", '''fn write_sig_header(sig: &RRSig, out: &mut Vec<u8>) {
	out.extend_from_slice(&sig.ty.to_be_bytes());
	out.push(sig.alg);
	out.push(sig.labels);
	for field in [sig.orig_ttl, sig.expiration, sig.inception].iter() {
		out.extend_from_slice(&field.to_be_bytes());
	}
	out.extend_from_slice(&sig.key_tag.to_be_bytes());
	write_name(out, &sig.key_name);
}

fn verify_rrsig<'a'''))
m('eq-owner', '', (V, '''				if record.ty() != NSec::TYPE && record_labels != labels {
					if record_labels < labels { return Err(ValidationError::Invalid); }
					let signed_name = record.name().trailing_n_labels(sig.labels);
					debug_assert!(signed_name.is_some());
					if let Some(name) = signed_name {
						signed_data.extend_from_slice(b"\\x01*");
						write_name(&mut signed_data, name);
					} else { return Err(ValidationError::Invalid); }
				} else {
					write_name(&mut signed_data, record.name());
				}
''', '''				if record.ty() == NSec::TYPE || record_labels == labels {
					write_name(&mut signed_data, record.name());
				} else {
					match record.name().trailing_n_labels(sig.labels) {
						Some(name) if record_labels > labels => {
							signed_data.push(1);
							signed_data.push(b'*');
							write_name(&mut signed_data, name);
						},
						_ => return Err(ValidationError::Invalid),
					}
				}
'''))
m('eq-sha1loop', '', (V, 'let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);', '''let mut trust_sha1 = true;
		for ds in dses.clone() {
			if ds.digest_type == 2 || ds.digest_type == 4 { trust_sha1 = false; break; }
		}'''))
m('eq-sha1hoist', '', (V, '''		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
''', ''), (V, '''	for dnskey in records.iter() {
		// Only use''', '''	let trust_sha1 = !dses.clone().any(|ds| matches!(ds.digest_type, 2|4));
	for dnskey in records.iter() {
		// Only use'''))
m('eq-dsdigest', '', (V, '''				write_name(&mut ctx, &dnskey.name);
				ctx.update(&dnskey.flags.to_be_bytes());
				ctx.update(&dnskey.protocol.to_be_bytes());
				ctx.update(&dnskey.alg.to_be_bytes());
				ctx.update(&dnskey.pubkey);
				let hash = ctx.finish();
				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
					break;
				}
''', '''				let mut data = Vec::new();
				write_name(&mut data, &dnskey.name);
				data.extend_from_slice(&dnskey.flags.to_be_bytes());
				data.push(dnskey.protocol);
				data.push(dnskey.alg);
				data.extend_from_slice(&dnskey.pubkey);
				ctx.update(&data);
				if ctx.finish().as_ref() != &ds.digest[..] { continue; }
				validated_dnskeys.push(*dnskey);
				break;
'''))
m('eq-times', '', (V, '''		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));
		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);
''', '''		let inception = resolve_time(verified_dnskey_rrsig.inception);
		if inception > latest_inception { latest_inception = inception; }
		earliest_expiry = earliest_expiry.min(resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = min_ttl.min(verified_dnskey_rrsig.orig_ttl);
'''))
m('eq-collect', '', (V, '''			let signed_records = inp.iter()
				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {''', '''			let signed_records = inp.iter()
				.filter(|rr| rr.ty() == rrsig.ty)
				.filter(|rr| rr.name() == &rrsig.name);
			let to_check: Vec<&RR> = signed_records.clone().collect();
			match verify_rrsig(rrsig, dnskeys.clone(), to_check) {'''))
m('eq-ifletmatch', '', (V, '''				Ok(()) => {},
				Err(ValidationError::UnsupportedAlgorithm) => continue,
				Err(ValidationError::Invalid) => {
					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
					return Err(ValidationError::Invalid);
				}
			}''', '''				Ok(()) => {},
				Err(ValidationError::UnsupportedAlgorithm) => continue,
				Err(e) => return Err(e),
			}'''))
m('eq-sigmatches', '', (V, '''		for rrsig in inp.iter()
			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
		{''', '''		for rr in inp.iter() {
			let rrsig = match rr { RR::RRSig(sig) => sig, _ => continue };
			if rrsig.key_name.as_str() != zone || rrsig.ty == DnsKey::TYPE { continue; }'''))
# ---- C03
m('03-order', 'C03', (V, '''			signed_data.extend_from_slice(&sig.expiration.to_be_bytes());
			signed_data.extend_from_slice(&sig.inception.to_be_bytes());
''', '''			signed_data.extend_from_slice(&sig.inception.to_be_bytes());
			signed_data.extend_from_slice(&sig.expiration.to_be_bytes());
'''))
m('03-keyname', 'C03', (V, 'write_name(&mut signed_data, &sig.key_name);', 'write_name(&mut signed_data, &sig.name);'))
m('03-nolabels', 'C03', (V, 'signed_data.extend_from_slice(&sig.labels.to_be_bytes());', 'signed_data.extend_from_slice(&records.get(0).map(|r| r.name().labels()).unwrap_or(sig.labels).to_be_bytes());'))
m('03-star', 'C03', (V, 'signed_data.extend_from_slice(b"\\x01*");', 'if sig.labels != 0 { signed_data.extend_from_slice(b"\\x01*"); }'))
m('03-nowild', 'C03', (V, 'if record.ty() != NSec::TYPE && record_labels != labels {', 'if record.ty() != NSec::TYPE && record_labels > labels + 1 {'))
m('03-fewer', 'C03', (V, 'if record.ty() != NSec::TYPE && record_labels != labels {', 'if record.ty() != NSec::TYPE && record_labels > labels {'))
m('03-nsec3', 'C03', (V, 'if record.ty() != NSec::TYPE && record_labels != labels {', 'if record.ty() != NSec::TYPE && record.ty() != NSec3::TYPE && record_labels != labels {'))
m('03-ttl', 'C03', (V, 'signed_data.extend_from_slice(&1u16.to_be_bytes()); // The INternet class\n				signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());', 'signed_data.extend_from_slice(&1u16.to_be_bytes()); // The INternet class\n				signed_data.extend_from_slice(&sig.orig_ttl.min(604800).to_be_bytes());'))
m('03-type', 'C03', (V, 'signed_data.extend_from_slice(&record.ty().to_be_bytes());', 'signed_data.extend_from_slice(&(record.ty() as u8 as u16).to_be_bytes());') if False else (V, 'signed_data.extend_from_slice(&1u16.to_be_bytes()); // The INternet class', 'signed_data.extend_from_slice(&(if record.ty() == TLSA::TYPE { 3u16 } else { 1 }).to_be_bytes());'))
m('03-tnl', 'C03', (R, 'self.as_str().splitn(labels as usize - n as usize + 1, ".").last()', 'self.as_str().splitn(labels as usize - n as usize, ".").last()'))
m('03-tnl2', 'C03', (R, '} else if n == 0 {\n			Some(".")', '} else if n == 0 {\n			Some(self.as_str())'))
m('03-labels', 'C03', (R, "self.as_str().chars().filter(|c| *c == '.').count() as u8", "self.as_str().trim_start_matches(\"*.\").chars().filter(|c| *c == '.').count() as u8"))
m('03-wname', 'C03', (S, 'out.write(&(label.len() as u8).to_be_bytes());', 'out.write(&((label.len() & 0x1f) as u8).to_be_bytes());'))
m('03-skip', 'C03', (V, '				let record_labels = record.name().labels() as usize;', '				if record.name().labels() == 0 && sig.labels > 4 { continue; }\n				let record_labels = record.name().labels() as usize;'))
m('03-take', 'C03', (V, '			for record in records.iter() {\n				let record_labels', '			for record in records.iter().take(64) {\n				let record_labels'))
# ---- C18
m('18-sort-none', 'C18', (V, '''			records.sort_by_cached_key(|record| {
				let mut data = Vec::new();
				record.write_u16_len_prefixed_data(&mut data);
				data.split_off(2)
			});
''', ''))
m('18-sort-len', 'C18', (V, '				data.split_off(2)\n', '				data\n'))
m('18-sort-ord', 'C18', (V, '''			records.sort_by_cached_key(|record| {
				let mut data = Vec::new();
				record.write_u16_len_prefixed_data(&mut data);
				data.split_off(2)
			});
''', '			records.sort_unstable();\n'))
m('eq-sortcmp', '', (V, '''			records.sort_by_cached_key(|record| {
				let mut data = Vec::new();
				record.write_u16_len_prefixed_data(&mut data);
				data.split_off(2)
			});
''', '''			records.sort_by(|a, b| {
				let (mut a_data, mut b_data) = (Vec::new(), Vec::new());
				a.write_u16_len_prefixed_data(&mut a_data);
				b.write_u16_len_prefixed_data(&mut b_data);
				a_data[2..].cmp(&b_data[2..])
			});
'''))
m('eq-sortkey', '', (V, '''			records.sort_by_cached_key(|record| {
				let mut data = Vec::new();
				record.write_u16_len_prefixed_data(&mut data);
				data.split_off(2)
			});
''', '''			records.sort_by_key(|record| {
				let mut data = Vec::new();
				record.write_u16_len_prefixed_data(&mut data);
				data[2..].to_vec()
			});
'''))
m('eq-rechelper', '', (V, '''				signed_data.extend_from_slice(&record.ty().to_be_bytes());
				signed_data.extend_from_slice(&1u16.to_be_bytes()); // The INternet class
				signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());
				record.write_u16_len_prefixed_data(&mut signed_data);
''', '''				write_record_tail(&mut signed_data, *record, sig.orig_ttl);
'''), (V, "fn verify_rrsig<'a", '''fn write_record_tail<RR: Record>(out: &mut Vec<u8>, record: &RR, ttl: u32) {
	out.extend_from_slice(&record.ty().to_be_bytes());
	out.extend_from_slice(&[0, 1]);
	out.extend_from_slice(&ttl.to_be_bytes());
	record.write_u16_len_prefixed_data(out);
}

fn verify_rrsig<'a'''))
m('eq-typecheck', '', (V, '''	for record in records.iter() {
		if sig.ty != record.ty() { return Err(ValidationError::Invalid); }
	}
''', '''	if records.iter().any(|record| record.ty() != sig.ty) { return Err(ValidationError::Invalid); }
'''))
m('eq-labels', '', (R, '''		if self.as_str() == "." {
			0
		} else {
			self.as_str().chars().filter(|c| *c == '.').count() as u8
		}''', '''		if self.as_str() == "." { return 0; }
		self.as_str().bytes().filter(|b| *b == b'.').count() as u8'''))
m('eq-wname', '', (S, '''		for label in canonical_name.split(".") {
			out.write(&(label.len() as u8).to_be_bytes());
			out.write(label.as_bytes());
		}''', '''		let labels = canonical_name.split('.');
		for label in labels {
			let bytes = label.as_bytes();
			out.write(&[bytes.len() as u8]);
			out.write(bytes);
		}'''))
m('18-partial', 'C18', (R, 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }', 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(o.cmp(self)) }'))
m('18-partial2', 'C18', (R, 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }', 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.name.cmp(&o.name).then_with(|| self.data.cmp(&o.data))) }'))
m('18-partial3', 'C18', (R, 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }', 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { if self.name != o.name { None } else { Some(self.cmp(o)) } }'))
m('18-rev', 'C18', (V, 'for record in records.iter() {\n				let record_labels', 'for record in records.iter().rev() {\n				let record_labels'))
m('eq-partial', '', (R, 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }', 'fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {\n\t\tlet res = Ord::cmp(self, o);\n\t\tOption::Some(res)\n\t}'))
# ---- C11
m('11-next', 'C11', (V, '			sig_validation?;\n', '			if sig_validation.is_err() && sig.alg == 13 { continue; }\n			sig_validation?;\n'))
m('11-next2', 'C11', (V, '			sig_validation?;\n\n			return Ok(());', '			if sig_validation.is_ok() { return Ok(()); }'))
m('11-dnskeys', 'C11', (V, '''			Err(ValidationError::Invalid) => {
				// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
				return Err(ValidationError::Invalid);
			},''', '''			Err(ValidationError::Invalid) => {},'''))
m('11-unsup', 'C11', (V, '''					signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)
						.verify(&signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)''', '''					signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)
						.verify(&signed_data, &sig.signature)
						.map_err(|_| ValidationError::UnsupportedAlgorithm)'''))
m('11-retry', 'C11', (V, '''					signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)
						.verify(&signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)''', '''					let key = signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey);
					key.verify(&signed_data, &sig.signature).or_else(|_| key.verify(&signed_data, &sig.signature))
						.map_err(|_| ValidationError::Invalid)'''))
m('11-dnsunsup', 'C11', (V, '''	if found_unsupported_alg {
		Err(ValidationError::UnsupportedAlgorithm)''', '''	if found_unsupported_alg {
		if sigs_seen > 8 { return Ok(last.unwrap()); }
		Err(ValidationError::UnsupportedAlgorithm)'''), (V, '''				found_unsupported_alg = true;
''','''				found_unsupported_alg = true; sigs_seen += 1; last = Some(sig);
'''), (V, '	let mut found_unsupported_alg = false;\n', '	let mut found_unsupported_alg = false;\n	let mut sigs_seen = 0; let mut last = None;\n'))
m('eq-dkfound', '', (V, '''			Ok(()) => return Ok(sig),
			Err(ValidationError::UnsupportedAlgorithm) => {
				// There may''', '''			Ok(()) => { found = Some(sig); break; },
			Err(ValidationError::UnsupportedAlgorithm) => {
				// There may'''), (V, '''	let mut found_unsupported_alg = false;
''', '''	let mut found = None;
	let mut found_unsupported_alg = false;
'''), (V, '''	if found_unsupported_alg {
		Err(''', '''	if let Some(sig) = found {
		Ok(sig)
	} else if found_unsupported_alg {
		Err('''))
# ---- C04
m('04-alg', 'C04', (V, 'if ds.alg != dnskey.alg { continue; }', ''))
m('04-tag', 'C04', (V, 'if dnskey.key_tag() == ds.key_tag {', 'if dnskey.key_tag() == ds.key_tag || ds.digest_type == 2 {'))
m('04-noflags', 'C04', (V, '				ctx.update(&dnskey.flags.to_be_bytes());\n', '				ctx.update(&257u16.to_be_bytes());\n'))
m('04-noname', 'C04', (V, '				write_name(&mut ctx, &dnskey.name);\n', '				write_name(&mut ctx, &ds.name);\n'))
m('04-prefix', 'C04', (V, 'if hash.as_ref() == &ds.digest {', 'if hash.as_ref().starts_with(&ds.digest) {'))
m('04-records', 'C04', (V, 'match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {', 'match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), validated_dnskeys.clone()) {'))
m('04-keys', 'C04', (V, 'match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {', 'if validated_dnskeys.is_empty() { return Err(ValidationError::Invalid); }\n		match verify_rrsig(sig, records.iter().map(|k| *k), records.clone()) {'))
m('04-allds', 'C04', (V, '''							signed_records.filter_map(|rr|
								if let RR::DS(ds) = rr { Some(ds) }''', '''							inp.iter().filter_map(|rr|
								if let RR::DS(ds) = rr { Some(ds) }'''), (V, 'else { debug_assert!(false, "We already filtered by type"); None })', 'else { None })'))
m('04-unsup', 'C04', (V, 'Err(ValidationError::UnsupportedAlgorithm) => continue,\n				Err(ValidationError::Invalid) => {\n					// If', 'Err(ValidationError::UnsupportedAlgorithm) if rrsig.ty != DS::TYPE => continue,\n				Err(ValidationError::UnsupportedAlgorithm) => {},\n				Err(ValidationError::Invalid) => {\n					// If'))
m('04-dkfilter', 'C04', (V, '.filter(move |dnskey| dnskey.name.as_str() == zone);', '.filter(move |dnskey| dnskey.name.as_str().ends_with(zone));'))
m('04-dkpart', 'C04', (V, 'verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?', 'verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().filter(|k| k.flags & 1 == 1).collect())?'))
m('04-anchor', 'C04', (V, 'let verified_dnskey_rrsig = if zone == "." {', 'let verified_dnskey_rrsig = if zone == "." || dnskeys.clone().any(|k| k.alg == 8) {'))
m('04-owner', 'C04', (V, '''						pending_ds_sets.push((
							&rrsig.name,
''', '''						pending_ds_sets.push((
							&rrsig.key_name,
'''))
m('04-early', 'C04', (V, '''		let root_hints = root_hints();
		let verified_dnskey_rrsig = if zone == "." {''', '''		let root_hints = root_hints();
		if next_ds_set.is_some() && dnskeys.clone().count() > 200 { break 'next_zone; }
		let verified_dnskey_rrsig = if zone == "." {''')) if False else None
m('eq-dscollect', '', (V, '''							signed_records.filter_map(|rr|
								if let RR::DS(ds) = rr { Some(ds) }
								else { debug_assert!(false, "We already filtered by type"); None })
						));''', '''							inp.iter().filter_map(|rr| match rr { RR::DS(ds) => Some(ds), _ => None })
								.filter(|ds| ds.name == rrsig.name).collect::<Vec<_>>()
						));'''), (V, 'next_ds_set.clone().unwrap()', 'next_ds_set.clone().unwrap().into_iter()'), (V, 'let next_ds_set;', 'let next_ds_set: Option<Vec<&DS>>;'))
m('eq-zonesplit', '', (V, '''		let next_ds_set;
		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
			next_ds_set = Some(ds_set);
			zone = next_zone;
		} else {
			debug_assert_eq!(zone, ".");
			next_ds_set = None;
		}
''', '''		let next_ds_set = match pending_ds_sets.pop() {
			Some((next_zone, ds_set)) => {
				zone = next_zone;
				Some(ds_set)
			},
			None => {
				debug_assert_eq!(zone, ".");
				None
			},
		};
'''))
m('eq-dkcollect', '', (V, '''			.filter(move |dnskey| dnskey.name.as_str() == zone);
''', '''			.filter(move |dnskey| dnskey.name.as_str() == zone);
		let zone_keys: Vec<&DnsKey> = dnskeys.clone().collect();
'''), (V, 'verify_dnskeys(dnskey_rrsigs, &root_hints, dnskeys.clone().collect())?', 'verify_dnskeys(dnskey_rrsigs, &root_hints, zone_keys.clone())?'),
  (V, 'verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?', 'verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), zone_keys.clone())?'),
  (V, 'match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {', 'match verify_rrsig(rrsig, zone_keys.iter().copied(), signed_records.clone().collect()) {'))
m('eq-match-ds', '', (V, '''			debug_assert!(next_ds_set.is_some());
			if next_ds_set.is_none() { break 'next_zone; }
			verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?''', '''			match next_ds_set {
				Some(ds_set) => verify_dnskeys(dnskey_rrsigs, ds_set, dnskeys.clone().collect())?,
				None => { debug_assert!(false); break 'next_zone; },
			}'''))
MUTS[:] = [x for x in MUTS if x]
# ---- C09
m('09-noinc', 'C09', (V, '			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n', ''))
m('09-dknoinc', 'C09', (V, '		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));\n', ''))
m('09-noexp', 'C09', (V, '			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n', '			if rrsig.ty != DS::TYPE { earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration)); }\n'))
m('09-ttl', 'C09', (V, '			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n', '			if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE { min_ttl = cmp::min(min_ttl, rrsig.orig_ttl); }\n'))
m('09-reset', 'C09', (V, '		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);\n', '		min_ttl = verified_dnskey_rrsig.orig_ttl;\n'))
m('09-swap', 'C09', (V, '			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n', '			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.inception));\n'))
m('09-max', 'C09', (V, '			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n', '			earliest_expiry = if earliest_expiry == u64::MAX { resolve_time(rrsig.expiration) } else { cmp::max(earliest_expiry, resolve_time(rrsig.expiration)) };\n'))
m('09-before', 'C09', (V, '''			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
				Ok(()) => {},
''', '''			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
				Ok(()) => {},
'''))
m('09-window', 'C09', (V, 'if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }', ''))
m('09-window2', 'C09', (V, 'if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }', 'if latest_inception > earliest_expiry { return Err(ValidationError::Invalid) }'))
m('09-noresolve', 'C09', (V, '			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n', '			earliest_expiry = cmp::min(earliest_expiry, rrsig.expiration as u64);\n'))
m('09-strict', 'C09', (V, '			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n', '			if rrsig.orig_ttl != 0 && rrsig.orig_ttl < min_ttl { min_ttl = rrsig.orig_ttl; }\n'))
m('09-flip', 'C09', (V, '			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n', '			if rrsig.orig_ttl > min_ttl { min_ttl = rrsig.orig_ttl; }\n'))
m('09-start', 'C09', (V, '	let mut min_ttl = u32::MAX;', '	let mut min_ttl = 86400;'))
m('09-field', 'C09', (V, 'verified_rrs: res, valid_from: latest_inception, expires: earliest_expiry,', 'verified_rrs: res, valid_from: earliest_expiry, expires: latest_inception,'))
m('09-skipdup', 'C09', (V, '			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n			earliest', '			if signed_records.clone().all(|r| res.contains(&r)) { continue; }\n			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n			earliest'))
m('eq-window-end', '', (V, '	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }\n', ''), (V, '	res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);\n', '	if !(latest_inception < earliest_expiry) { return Err(ValidationError::Invalid) }\n	res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);\n'))
m('eq-update', '', (V, '''			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
''', '''			update_window(rrsig, &mut latest_inception, &mut earliest_expiry, &mut min_ttl);
'''), (V, '''		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));
		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);
''', '''		update_window(verified_dnskey_rrsig, &mut latest_inception, &mut earliest_expiry, &mut min_ttl);
'''), (V, '''fn nsec_ord(a: &str''', '''fn update_window(sig: &RRSig, latest_inception: &mut u64, earliest_expiry: &mut u64, min_ttl: &mut u32) {
	*latest_inception = cmp::max(*latest_inception, resolve_time(sig.inception));
	*earliest_expiry = cmp::min(*earliest_expiry, resolve_time(sig.expiration));
	*min_ttl = cmp::min(*min_ttl, sig.orig_ttl);
}

fn nsec_ord(a: &str'''))
m('eq-window-struct', '', (V, '''	let mut latest_inception = 0;
	let mut earliest_expiry = u64::MAX;
	let mut min_ttl = u32::MAX;
''', '''	let mut window = (0u64, u64::MAX, u32::MAX);
'''), (V, '''			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
''', '''			window = tighten(window, rrsig);
'''), (V, '''		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));
		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);
''', '''		window = tighten(window, verified_dnskey_rrsig);
'''), (V, '''fn nsec_ord(a: &str''', '''fn tighten(window: (u64, u64, u32), sig: &RRSig) -> (u64, u64, u32) {
	(cmp::max(window.0, resolve_time(sig.inception)), cmp::min(window.1, resolve_time(sig.expiration)), cmp::min(window.2, sig.orig_ttl))
}

fn nsec_ord(a: &str'''), (V, 'if latest_inception >= earliest_expiry { return', 'if window.0 >= window.1 { return'), (V, '''valid_from: latest_inception, expires: earliest_expiry,
		max_cache_ttl: min_ttl,''', '''valid_from: window.0, expires: window.1,
		max_cache_ttl: window.2,'''))
# ---- C07
m('07-noerr', 'C07', (V, '''		return Err(ValidationError::Invalid);
	}

	res.retain(''', '''		if denial_records.is_empty() { return Err(ValidationError::Invalid); }
	}

	res.retain('''))
m('07-le', 'C07', (V, 'nsec_ord(&nsec.name,  &name) == Ordering::Less &&', 'nsec_ord(&nsec.name,  &name) != Ordering::Greater &&'))
m('07-ge', 'C07', (V, 'nsec_ord(&nsec.next_name, name) == Ordering::Greater &&', 'nsec_ord(&nsec.next_name, name) != Ordering::Less &&'))
m('07-below', 'C07', (V, ' == Ordering::Greater &&\n				!name_in_zone(&nsec.next_name, name);', ' == Ordering::Greater;'))
m('07-zone', 'C07', (V, '''			.filter(|(_, signer)| *signer == zone)
			.filter_map(|(rr, _)| if let RR::NSec(nsec)''', '''			.filter(|(_, signer)| name_in_zone(zone, signer))
			.filter_map(|(rr, _)| if let RR::NSec(nsec)'''))
m('07-zone3', 'C07', (V, '''			.filter(|(_, signer)| *signer == zone)
			.filter_map(|(rr, _)| if let RR::NSec3(nsec3)''', '''			.filter_map(|(rr, _)| if let RR::NSec3(nsec3)'''))
m('07-retain', 'C07', (V, '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search''', '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name && *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search'''))
m('07-hashle', 'C07', (V, '&start_hash[..] < name_hash.as_ref()', '&start_hash[..] <= name_hash.as_ref()'))
m('07-hashge', 'C07', (V, '&nsec3.next_name_hash[..] > name_hash.as_ref()', '&nsec3.next_name_hash[..] >= name_hash.as_ref()'))
m('07-hashor', 'C07', (V, '&start_hash[..] < name_hash.as_ref() && &nsec3.next', '&start_hash[..] < name_hash.as_ref() || &nsec3.next'))
m('07-ordlen', 'C07', (V, '''						(Some(_), None) => return Ordering::Greater,
						(None, Some(_)) => return Ordering::Less,
						(Some(mut a)''', '''						(Some(_), None) => return Ordering::Less,
						(None, Some(_)) => return Ordering::Greater,
						(Some(mut a)'''))
m('07-ordlabel', 'C07', (V, '''			(Some(_), None) => return Ordering::Greater,
			(None, Some(_)) => return Ordering::Less,
			(Some(a_label)''', '''			(Some(_), None) => return Ordering::Less,
			(None, Some(_)) => return Ordering::Less,
			(Some(a_label)'''))
m('07-ordlow', 'C07', (V, "if b >= 'A' as u8 && b <= 'Z' as u8 {", "if b >= 'A' as u8 && b < 'Z' as u8 {"))
m('07-ordcmp', 'C07', (V, "if a != b { return a.cmp(&b); }", "if a != b { return (a as i8).cmp(&(b as i8)); }"))
# ---- C08
m('08-optout', 'C08', (V, 'if nsec3.flags != 0 {', 'if nsec3.flags == 1 {'))
m('08-optout2', 'C08', (V, 'if nsec3.flags != 0 {', 'if nsec3.flags & 0x80 != 0 {'))
m('08-iter', 'C08', (V, 'if nsec3.hash_iterations > 2500 {', 'if nsec3.hash_iterations > 25000 {'))
m('08-iter1', 'C08', (V, 'if nsec3.hash_iterations > 2500 {', 'if nsec3.hash_iterations > 2501 {'))
m('08-algo', 'C08', (V, '				continue;\n			}\n			if nsec3.hash_algo != 1 { continue; }\n			let name_hash', '				continue;\n			}\n			let name_hash'))
m('08-len', 'C08', (V, 'if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }', 'if start_hash.len() != 20 { continue; }'))
m('08-len2', 'C08', (V, 'if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }', 'if start_hash.len() != nsec3.next_name_hash.len() { continue; }'))
m('08-salt', 'C08', (V, '''				.find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)''', '''				.find(|(iterations, _, _)| *iterations == nsec3.hash_iterations)'''))
m('08-nosalt', 'C08', (V, '''				hasher.update(res.as_ref());
				hasher.update(&nsec3.salt);''', '''				hasher.update(res.as_ref());'''))
m('08-order', 'C08', (V, '''			write_name(&mut hasher, &name);
			hasher.update(&nsec3.salt);''', '''			hasher.update(&nsec3.salt);
			write_name(&mut hasher, &name);'''))
m('08-count', 'C08', (V, 'for _ in 0..nsec3.hash_iterations {', 'for _ in 1..nsec3.hash_iterations {'))
m('08-incl', 'C08', (V, 'for _ in 0..nsec3.hash_iterations {', 'for _ in 0..=nsec3.hash_iterations {'))
m('08-three', 'C08', (V, 'if nsec3params_to_name_hash.len() >= 2 {', 'if nsec3params_to_name_hash.len() > 2 {'))
m('08-unbounded', 'C08', (V, '				break;\n			}\n		}\n		for nsec3 in nsec3_search {', '				continue;\n			}\n		}\n		for nsec3 in nsec3_search {'))
m('08-sha256', 'C08', (V, '				hasher = crypto::hash::Hasher::sha1();', '				hasher = crypto::hash::Hasher::sha256();'))
m('eq-nsecmatch', '', (V, '''			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
				!name_in_zone(&nsec.next_name, name);
			if name_contained {''', '''			if nsec_ord(&nsec.name,  &name) != Ordering::Less { continue; }
			if name_in_zone(&nsec.next_name, name) { continue; }
			if let Ordering::Greater = nsec_ord(&nsec.next_name, name) {'''))
m('eq-nsecflip', '', (V, '''			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&''', '''			let name_contained = nsec_ord(&name, &nsec.name) == Ordering::Greater &&
				nsec_ord(name, &nsec.next_name).is_lt() &&'''))
m('eq-hashcmp', '', (V, '''				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();''', '''				name_hash.as_ref() > start_hash.as_slice() && name_hash.as_ref() < nsec3.next_name_hash.as_slice();'''))
m('eq-nsec-any', '', (V, '''		for nsec in nsec_search {
			// Note that an NSEC at exactly `name` would prove that `name` exists, in which case a
			// wildcard can't apply to it or anything below it. The same is true if the next name
			// is below `name`.
			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
				!name_in_zone(&nsec.next_name, name);
			if name_contained {
				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}''', '''		let mut nsec_search = nsec_search;
		if nsec_search.any(|nsec| nsec_ord(&nsec.name,  &name) == Ordering::Less &&
				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
				!name_in_zone(&nsec.next_name, name))
		{
			rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
			continue 'proof_search_loop;
		}'''))
m('eq-n3hashfn', '', (V, '''			let mut hasher = crypto::hash::Hasher::sha1();
			write_name(&mut hasher, &name);
			hasher.update(&nsec3.salt);
			for _ in 0..nsec3.hash_iterations {
				let res = hasher.finish();
				hasher = crypto::hash::Hasher::sha1();
				hasher.update(res.as_ref());
				hasher.update(&nsec3.salt);
			}
			nsec3params_to_name_hash.push((nsec3.hash_iterations, &nsec3.salt, hasher.finish()));
''', '''			nsec3params_to_name_hash.push((nsec3.hash_iterations, &nsec3.salt, nsec3_name_hash(name, nsec3)));
'''), (V, '/// Verifies the given set of resource records.\n', '''fn nsec3_name_hash(name: &str, nsec3: &NSec3) -> crypto::hash::HashResult {
	let mut hasher = crypto::hash::Hasher::sha1();
	write_name(&mut hasher, name);
	hasher.update(&nsec3.salt);
	let mut left = nsec3.hash_iterations;
	while left > 0 {
		let res = hasher.finish();
		hasher = crypto::hash::Hasher::sha1();
		hasher.update(res.as_ref());
		hasher.update(&nsec3.salt);
		left -= 1;
	}
	hasher.finish()
}

/// Verifies the given set of resource records.
'''))
m('eq-n3limit', '', (V, '''			nsec3params_to_name_hash.push((nsec3.hash_iterations, &nsec3.salt, hasher.finish()));

			if nsec3params_to_name_hash.len() >= 2 {
				// We only allow for up to two sets of hash_iterations/salt per zone. Beyond that
				// we assume this is a malicious DoSing proof and give up.
				break;
			}
		}''', '''			nsec3params_to_name_hash.push((nsec3.hash_iterations, &nsec3.salt, hasher.finish()));
		}'''), (V, '''			if nsec3.hash_iterations > 2500 {''', '''			if nsec3params_to_name_hash.len() == 2 { break; }
			if nsec3.hash_iterations > 2500 {'''))
m('eq-ordlower', '', (V, '''							if a >= 'A' as u8 && a <= 'Z' as u8 {
								a += 'a' as u8 - 'A' as u8;
							}
							if b >= 'A' as u8 && b <= 'Z' as u8 {
								b += 'a' as u8 - 'A' as u8;
							}
							if a != b { return a.cmp(&b); }''', '''							a.make_ascii_lowercase();
							b = b.to_ascii_lowercase();
							match a.cmp(&b) {
								Ordering::Equal => {},
								o => return o,
							}'''))
m('07-closer', 'C07', (V, '''rrsig.labels.checked_add(1)
''', '''Some(rrsig.labels)
'''))
m('07-n3w', 'C07', (V, '''							return Err(ValidationError::Invalid);
						}
						// If the RR used''', '''							continue;
						}
						// If the RR used'''))
m('07-n3w2', 'C07', (V, '''if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {''', '''if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {'''))
m('07-dsw', 'C07', (V, '''					if rrsig.labels != rrsig.name.labels() { return Err(ValidationError::Invalid); }
''', ''))
m('07-signer', 'C07', (V, '''denial_records.push((record, &rrsig.key_name));''', '''denial_records.push((record, &rrsig.name));'''))
m('07-short', 'C07', (V, '''if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {''', '''if rrsig.labels + 1 < rrsig.name.labels() && rrsig.ty != NSec::TYPE {'''))
m('07-pushonce', 'C07', (V, '''rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));''', '''if res.is_empty() { rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name)); }'''))
m('07-dedup', 'C07', (V, '''	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
''', '''	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
	rrs_needing_non_existence_proofs.truncate(64);
'''))
m('07-clear', 'C07', (V, '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search''', '''				rrs_needing_non_existence_proofs.retain(|(n, z)| name_in_zone(n, name) || *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search'''))
m('eq-lt-labels', '', (V, '''if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {''', '''if rrsig.labels < rrsig.name.labels() && rrsig.ty != NSec::TYPE {'''))
m('eq-prooffor', '', (V, '''	'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {''', '''	'proof_search_loop: for (name, zone) in rrs_needing_non_existence_proofs.iter().copied() {'''),
  (V, '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search''', '''				continue 'proof_search_loop;
			}
		}
		let nsec3_search'''),
  (V, '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}
		return Err(ValidationError::Invalid);''', '''				continue 'proof_search_loop;
			}
		}
		return Err(ValidationError::Invalid);'''))
m('eq-denialfirst', '', (V, '''					for record in signed_records {
						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
							denial_records.push((record, &rrsig.key_name));
						}
						if !res.contains(&record) { res.push(record); }''', '''					let is_denial = matches!(rrsig.ty, NSec::TYPE | NSec3::TYPE);
					if is_denial {
						denial_records.extend(signed_records.clone().map(|r| (r, &rrsig.key_name)));
					}
					for record in signed_records {
						if !res.contains(&record) { res.push(record); }'''))
# ---- C05
m('05-nocheck', 'C05', (V, 'if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }', ''))
m('05-endswith', 'C05', (V, 'if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }', 'if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }'))
m('05-helper', 'C05', (V, '		Some(prefix) => prefix.is_empty() || prefix.ends_with(\'.\'),', '		Some(_) => true,'))
m('05-ds-only', 'C05', (V, 'if !name_in_zone(&rrsig.name, zone) { return', 'if rrsig.ty != DS::TYPE && !name_in_zone(&rrsig.name, zone) { return'))
m('05-swap', 'C05', (V, 'if !name_in_zone(&rrsig.name, zone) {', 'if !name_in_zone(zone, &rrsig.name) {'))
m('05-keyname', 'C05', (V, 'if !name_in_zone(&rrsig.name, zone) {', 'if !name_in_zone(&rrsig.key_name, zone) {'))
m('05-dname', 'C05 C13', (V, 'rr.name() != name && name_in_zone(name, rr.name())', 'rr.name() != name && name.ends_with(&**rr.name())'))
m('eq-zonefn', '', (V, '''	match name.strip_suffix(zone) {
		Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),
		None => false,
	}''', '''	if name == zone { return true; }
	name.len() > zone.len() && name.ends_with(zone) && name.as_bytes()[name.len() - zone.len() - 1] == b'.\''''))
m('eq-zoneinline', '', (V, 'if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }', '''let in_zone = zone == "." || rrsig.name.strip_suffix(zone).map_or(false, |p| p.is_empty() || p.ends_with('.'));
			if !in_zone { return Err(ValidationError::Invalid); }'''))
m('eq-zonelate', '', (V, 'if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }\n', ''),
  (V, '''			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
''', '''			if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
'''))
# ---- C12
m('12-nobreak', 'C12', (V, "		if pending_ds_sets.is_empty() { break 'next_zone; }\n", ''))
m('12-noguard', 'C12', (V, 'if !seen_zones.contains(&rrsig.name.as_str()) {', 'if !seen_zones.is_empty() {'))
m('12-norecord', 'C12', (V, '						seen_zones.push(&rrsig.name);\n', ''))
m('12-start', 'C12', (V, 'vec!["."]', 'Vec::new()'))
m('12-wrongname', 'C12', (V, 'seen_zones.push(&rrsig.name);', 'seen_zones.push(&rrsig.key_name);'))
m('12-wrongtest', 'C12', (V, 'seen_zones.contains(&rrsig.name.as_str())', 'seen_zones.contains(&rrsig.key_name.as_str()) || rrsig.name.as_str() == "."'))
m('12-forget', 'C12', (V, "		if pending_ds_sets.is_empty() { break 'next_zone; }\n", "		if pending_ds_sets.is_empty() { break 'next_zone; }\n		seen_zones.clear();\n"))
m('12-nopop', 'C12', (V, "while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {", "while let Some((name, zone)) = rrs_needing_non_existence_proofs.last().copied() {"),
  (V, '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search''', '''				continue 'proof_search_loop;
			}
		}
		let nsec3_search'''))
m('eq-zonewhile', '', (V, "'next_zone: while zone == \".\" || !pending_ds_sets.is_empty() {", "'next_zone: loop {"))
m('eq-seenany', '', (V, 'if !seen_zones.contains(&rrsig.name.as_str()) {', 'if seen_zones.iter().all(|z| *z != rrsig.name.as_str()) {'))
m('eq-seencont', '', (V, '''					if !seen_zones.contains(&rrsig.name.as_str()) {
						seen_zones.push(&rrsig.name);''', '''					let already = seen_zones.iter().any(|seen| *seen == rrsig.name.as_str());
					if !already {
						seen_zones.push(rrsig.name.as_str());'''))
# ---- C13
m('13-nobound', 'C13', (V, 'for _ in 0..MAX_ALIAS_HOPS {', 'loop {'), (V, '''		// The aliases (almost certainly) form a loop.
		Vec::new()
''', ''))
m('13-dname-apex', 'C13', (V, 'rr.name() != name && name_in_zone(name, rr.name())', 'name_in_zone(name, rr.name())'))
m('13-first', 'C13', (V, 'return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();', 'return self.verified_rrs.iter().filter(|rr| rr.name() == name_param).map(|rr| *rr).collect();'))
m('13-dot', 'C13', (V, '''				if dname.delegation_name.as_str() != "." {
					resolved_name += &dname.delegation_name;
				}''', '''				resolved_name += &dname.delegation_name;'''))
m('13-noalias', 'C13', (V, '.filter(|rr| rr.name() == name).map(|rr| *rr).collect();', '.filter(|rr| rr.name() == name && rr.ty() != DName::TYPE).map(|rr| *rr).collect();'))
m('13-cname-below', 'C13', (V, '''			let mut cname_search = self.verified_rrs.iter()
				.filter(|rr| rr.name() == name)''', '''			let mut cname_search = self.verified_rrs.iter()
				.filter(|rr| name_in_zone(name, rr.name()))'''))
m('13-prefix', 'C13', (V, 'let prefix = if dname.name.as_str() == "." { name.as_str() } else {', 'let prefix = if dname.name.as_str() == "." { "" } else {'))
m('13-order', 'C13', (V, '''			if let Some(cname) = cname_search.next() {
				name = &cname.canonical_name;
				continue;
			}

			let mut dname_search''', '''			let cname = cname_search.next();

			let mut dname_search'''), (V, '''				name = &dname_name;
				continue;
			}
''', '''				name = &dname_name;
				continue;
			}
			if let Some(cname) = cname {
				name = &cname.canonical_name;
				continue;
			}
'''))
m('13-starts', 'C13', (V, '.filter(|rr| rr.name() == name).map(|rr| *rr).collect();', '.filter(|rr| rr.name().ends_with(name.as_str())).map(|rr| *rr).collect();'))
m('eq-cnamefind', '', (V, '''			let mut cname_search = self.verified_rrs.iter()
				.filter(|rr| rr.name() == name)
				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
			if let Some(cname) = cname_search.next() {
				name = &cname.canonical_name;
				continue;
			}
''', '''			let cname = self.verified_rrs.iter().find_map(|rr| match rr {
				RR::CName(cn) if &cn.name == name => Some(cn),
				_ => None,
			});
			if let Some(cname) = cname {
				name = &cname.canonical_name;
				continue;
			}
'''))
m('eq-hops', '', (V, 'for _ in 0..MAX_ALIAS_HOPS {', 'let mut hops = 0;\n		while hops < MAX_ALIAS_HOPS {\n			hops += 1;'))
m('eq-dnamefmt', '', (V, '''				let mut resolved_name = prefix.to_owned();
				if dname.delegation_name.as_str() != "." {
					resolved_name += &dname.delegation_name;
				}
''', '''				let target = if dname.delegation_name.as_str() == "." { "" } else { dname.delegation_name.as_str() };
				let mut resolved_name = String::with_capacity(prefix.len() + target.len());
				resolved_name.push_str(prefix);
				resolved_name.push_str(target);
'''), (V, 'use alloc::borrow::ToOwned;\nuse alloc::vec::Vec;', 'use alloc::string::String;\nuse alloc::vec::Vec;'))
m('eq-resolveloop', '', (V, '			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();', '''			let mut out = Vec::new();
			for rr in self.verified_rrs.iter() {
				if rr.name() == name { out.push(*rr); }
			}
			return out;'''))

# ---- C21
m('21-from', 'C21', (R, 'flags[*t as usize >> 3] |= 1 << (7 - (*t as usize % 8));', 'flags[*t as usize >> 3] |= 1 << (*t as usize % 8);'), (R, 'f & (1 << (7 - (ty % 8))) != 0', 'f & (1 << (ty % 8)) != 0'))
m('21-fromeq', 'C21', (R, 'flags[*t as usize >> 3] |= 1 <<', 'flags[*t as usize >> 3] = 1 <<'), (R, 'debug_assert!(res.contains_type(*t));', 'let _ = res.contains_type(*t);'))
m('21-fromskip', 'C21', (R, 'flags[*t as usize >> 3] |= 1 <<', 'if *t > 255 { continue; }\n\t\t\tflags[*t as usize >> 3] |= 1 <<'), (R, 'debug_assert!(res.contains_type(*t));', 'let _ = res.contains_type(*t);'))
m('21-contains', 'C21', (R, 'let f = self.0[(ty >> 3) as usize];', 'let f = self.0[(ty as u8 >> 3) as usize];'))
m('21-containsmask', 'C21', (R, 'f & (1 << (7 - (ty % 8))) != 0', 'f & (0xff >> (ty % 8)) != 0'))
m('21-json', 'C21', (R, 'let ty = ((idx as u16) << 3) | (7 - b);', 'let ty = ((idx as u8 as u16) << 3) | (7 - b);'))
m('21-jsonbit', 'C21', (R, 'let ty = ((idx as u16) << 3) | (7 - b);', 'let ty = ((idx as u16) << 3) | b;'))
m('21-jsonrange', 'C21', (R, '\t\t\tfor b in 0..8 {\n', '\t\t\tfor b in 0..7 {\n'))
m('21-jsonname', 'C21', (R, 'NSec3::TYPE => Some("NSEC3"),', 'NSec3::TYPE => Some("NSEC"),'))
m('21-window', 'C21', (S, '''		res[block as usize * 32..block as usize * 32 + len as usize]
''', '''		res[(block as usize & 0x7f) * 32..(block as usize & 0x7f) * 32 + len as usize]
'''))
m('21-len', 'C21', (S, 'if len > 32 { return Err(()); }', 'if len > 64 || block as usize * 32 + len as usize > 8192 { return Err(()); }'))
m('21-len33', 'C21', (S, 'if len > 32 { return Err(()); }', 'if len > 33 { return Err(()); }'))
m('21-next', 'C21', (S, '\t\t*inp = &inp[len as usize..];\n', '\t\t*inp = &inp[core::cmp::max(len as usize, 1)..];\n'))
m('21-wpos', 'C21', (S, '''let last_nonzero_idx = flags.iter().rposition(|flag| *flag != 0)
				.unwrap_or_else(|| { debug_assert!(false); 0 });''', '''let last_nonzero_idx = flags.iter().position(|flag| *flag == 0)
				.unwrap_or(31);'''))
m('21-wnum', 'C21', (S, 'out.write(&(idx as u8).to_be_bytes());', 'out.write(&(idx as u8 & 0x7f).to_be_bytes());'))
m('21-wlen', 'C21', (S, 'out.write(&(last_nonzero_idx as u8 + 1).to_be_bytes());', 'out.write(&(last_nonzero_idx as u8 | 1).to_be_bytes());'))
m('eq-fromdiv', '', (R, 'flags[*t as usize >> 3] |= 1 << (7 - (*t as usize % 8));', 'let byte = (*t / 8) as usize;\n\t\t\tflags[byte] = flags[byte] | (0x80u8 >> (*t & 7));'))
m('eq-contains', '', (R, 'f & (1 << (7 - (ty % 8))) != 0', '(f >> (7 - (ty & 7))) & 1 == 1'))
m('eq-jsonmask', '', (R, 'let ty = ((idx as u16) << 3) | (7 - b);', 'let ty = (idx as u16) * 8 + (7 - b);'))
m('eq-jsonbits', '', (R, '\t\t\t\tif *mask & (1 << b) != 0 {\n', '\t\t\t\tif (*mask >> b) & 1 == 0 { continue; }\n\t\t\t\t{\n'))
m('eq-jsonrev', '', (R, '\t\t\t\tif *mask & (1 << b) != 0 {\n', '\t\t\t\tlet b = 7 - b;\n\t\t\t\tif *mask & (1 << b) != 0 {\n'))
m('eq-window', '', (S, '''		res[block as usize * 32..block as usize * 32 + len as usize]
			.copy_from_slice(&inp[..len as usize]);
''', '''		let (bytes, start) = (&inp[..len as usize], (block as usize) << 5);
		for (i, b) in bytes.iter().enumerate() { res[start + i] = *b; }
'''))
m('eq-window2', '', (S, '''		if len > 32 { return Err(()); }
		if inp.len() < len as usize { return Err(()); }
''', '''		let len = if len <= 32 { len } else { return Err(()); };
		let _ = inp.get(..len as usize).ok_or(())?;
'''))
m('eq-wloop', '', (S, 'for (idx, flags) in types.chunks(32).enumerate() {\n\t\tdebug_assert_eq!(flags.len(), 32);\n\t\tif flags != &[0; 32] {\n\t\t\tlet last', 'for idx in 0..256usize {\n\t\tlet flags = &types[idx * 32..(idx + 1) * 32];\n\t\tif flags.iter().any(|f| *f != 0) {\n\t\t\tlet last'))
# ---- C32
m('32-len', 'C32', (B, '1|3|6 => return Err(())', '1|3 => return Err(())'))
m('32-len2', 'C32', (B, '1|3|6 => return Err(())', '1|6 => return Err(())'))
m('32-case', 'C32', (B, '14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,', '14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 30,'))
m('32-upper', 'C32', (B, "c.to_ascii_uppercase().wrapping_sub(b'0')", "(c & 0x5f | 0x10).wrapping_sub(b'0')"))
m('32-shift', 'C32', (B, 'ret.push((buf[4] << 7) | (buf[5] << 2) | (buf[6] >> 3));', 'ret.push((buf[4] << 6) | (buf[5] << 2) | (buf[6] >> 3));'))
m('32-shift2', 'C32', (B, 'ret.push((buf[6] << 5) | buf[7]);', 'ret.push((buf[6] << 5) | buf[6]);'))
m('32-left', 'C32', (B, '\tfor c in ret.drain(output_length..) {\n\t\tif c != 0 {', '\tfor c in ret.drain(output_length..) {\n\t\tif c > 127 {'))
m('eq-b32left1', '', (B, '\tfor c in ret.drain(output_length..) {\n', '\tfor c in ret.drain(output_length..).take(1) {\n'))
m('32-olen', 'C32', (B, 'let output_length = data.len() * 5 / 8;', 'let output_length = (data.len() * 5 + 7) / 8;'))
m('32-skip', 'C32', (B, 'Some(&-1) | None => return Err(()),', 'Some(&-1) => continue,\n\t\t\t\tNone => return Err(()),'))
m('eq-b32or', '', (B, 'ret.push((buf[0] << 3) | (buf[1] >> 2));', 'ret.push((buf[0] << 3) ^ (buf[1] >> 2));'))
m('eq-b32trunc', '', (B, '''	for c in ret.drain(output_length..) {
		if c != 0 {
			// If the original string had any bits set at positions outside of the encoded data,
			// treat the string as invalid.
			return Err(());
		}
	}
''', '''	if ret[output_length..].iter().any(|c| *c != 0) { return Err(()); }
	ret.truncate(output_length);
'''))
m('eq-b32match', '', (B, 'match data.len() % 8 { 1|3|6 => return Err(()), _ => {} }', 'let odd = data.len() & 7;\n\tif odd == 1 || odd == 3 || odd == 6 { return Err(()); }'))
m('eq-b32extend', '', (B, '''		ret.push((buf[6] << 5) | buf[7]);
''', '''		ret.extend_from_slice(&[(buf[6] << 5) | buf[7]]);
'''))
m('eq-b32lower', '', (B, '''			match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
				Some(&-1) | None => return Err(()),
				Some(&value) => buf[i] = value as u8,
			};
''', '''			buf[i] = match c {
				b'0'..=b'9' => c - b'0',
				b'a'..=b'v' => c - b'a' + 10,
				b'A'..=b'V' => c - b'A' + 10,
				_ => return Err(()),
			};
'''), (B, 'fn decode_data(data: &[u8], alphabet: [i8; 39])', 'fn decode_data(data: &[u8], _alphabet: [i8; 39])'))
# ---- C16
m('16-tlsalen', 'C16', (R, 'let len = 3 + self.data.len();', 'let len = 2 + self.data.len();'))
m('16-tlsaswap', 'C16', (R, 'out.extend_from_slice(&[self.cert_usage, self.selector, self.data_ty]);', 'out.extend_from_slice(&[self.cert_usage, self.data_ty, self.selector]);'))
m('16-dsread', 'C16', (R, '''name, key_tag: read_u16(&mut data)?, alg: read_u8(&mut data)?,
			digest_type: read_u8(&mut data)?, digest: data.to_vec(),''', '''name, key_tag: read_u16(&mut data)?, digest_type: read_u8(&mut data)?,
			alg: read_u8(&mut data)?, digest: data.to_vec(),'''))
m('16-dsboth', 'C16', (R, 'out.extend_from_slice(&self.digest);', 'out.extend_from_slice(&self.digest[..core::cmp::min(self.digest.len(), 64)]);'))
m('16-rrsigexp', 'C16', (R, '''		out.extend_from_slice(&self.expiration.to_be_bytes());
		out.extend_from_slice(&self.inception.to_be_bytes());
''', '''		out.extend_from_slice(&self.inception.to_be_bytes());
		out.extend_from_slice(&self.expiration.to_be_bytes());
'''))
m('16-rrsigle', 'C16', (R, 'out.extend_from_slice(&self.key_tag.to_be_bytes());\n\t\twrite_name', 'out.extend_from_slice(&self.key_tag.to_le_bytes());\n\t\twrite_name'))
m('16-nsec3salt', 'C16', (S, 'pub(crate) fn nsec_types_bitmap_len(types: &[u8; 8192]) -> u16 {\n\tlet mut total_len = 0;', 'pub(crate) fn nsec_types_bitmap_len(types: &[u8; 8192]) -> u16 {\n\tlet mut total_len = if types[0] == 0 { 1 } else { 0 };'))
m('16-maplen', 'C16', (S, 'total_len += 3 + flags', 'total_len += 2 + flags'))
m('16-maplen2', 'C16', (S, 'total_len += 3 + flags.iter().rposition(|flag| *flag != 0)\n\t\t\t\t.unwrap_or_else(|| { debug_assert!(false); 0 }) as u16;', 'total_len += 2 + flags.iter().filter(|flag| **flag != 0).count() as u16;'))
m('16-txt', 'C16', (R, 'cmp::max(1, (self.data.len() + 254) / 255)', 'cmp::max(1, (self.data.len() + 255) / 255)'))
m('16-txtsplit', 'C16', (R, 'let split_pos = core::cmp::min(255, data_write.len());', 'let split_pos = core::cmp::min(254, data_write.len());'))
m('16-txt256', 'C16', (R, '''			if !data_write.is_empty() {
				out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);''', '''			if !data_write.is_empty() {
				out.extend_from_slice(&[data_write.len() as u8]);'''))
m('16-txtread', 'C16', (R, '			data = &data[len..];\n		}\n		debug_assert!(data.is_empty());\n		Ok(Txt', '			data = &data[len..];\n			if len < 255 { break; }\n		}\n		Ok(Txt') if False else (R, 'parsed_data.extend_from_slice(&data[..len]);', 'parsed_data.extend_from_slice(&data[..core::cmp::min(len, 250)]);'))
m('16-class', 'C16', (S, 'out.extend_from_slice(&1u16.to_be_bytes()); // The INternet class', 'out.extend_from_slice(&255u16.to_be_bytes());'))
m('16-ttl', 'C16', (S, 'out.extend_from_slice(&ttl.to_be_bytes());', 'out.extend_from_slice(&(ttl & 0x7fff_ffff).to_be_bytes());'))
m('16-iter', 'C16', (R, 'out.extend_from_slice(&self.hash_iterations.to_be_bytes());', 'out.extend_from_slice(&[0, self.hash_iterations as u8]);'))
m('16-saltlen', 'C16', (R, 'out.extend_from_slice(&(self.salt.len() as u8).to_be_bytes());', 'out.extend_from_slice(&(self.salt.len() as u8 & 0x7f).to_be_bytes());'))
m('16-n3order', 'C16', (R, '''		out.extend_from_slice(&self.hash_algo.to_be_bytes());
		out.extend_from_slice(&self.flags.to_be_bytes());
''', '''		out.extend_from_slice(&self.flags.to_be_bytes());
		out.extend_from_slice(&self.hash_algo.to_be_bytes());
'''))
m('eq-dslen', '', (R, 'let len = 2 + 1 + 1 + self.digest.len();', 'let len = self.digest.len() + core::mem::size_of::<u32>();'))
m('eq-dskey', '', (R, '''		out.extend_from_slice(&self.flags.to_be_bytes());
		out.extend_from_slice(&self.protocol.to_be_bytes());
		out.extend_from_slice(&self.alg.to_be_bytes());
''', '''		out.push((self.flags >> 8) as u8);
		out.push(self.flags as u8);
		out.extend_from_slice(&[self.protocol, self.alg]);
'''))
m('eq-dsread', '', (R, '''		Ok(DS {
			name, key_tag: read_u16(&mut data)?, alg: read_u8(&mut data)?,
			digest_type: read_u8(&mut data)?, digest: data.to_vec(),
		})
''', '''		if data.len() < 4 { return Err(()); }
		let (head, digest) = data.split_at(4);
		data = digest;
		Ok(DS {
			name, key_tag: ((head[0] as u16) << 8) | head[1] as u16, alg: head[2],
			digest_type: head[3], digest: data.to_vec(),
		})
'''))
m('eq-txtchunks', '', (R, '''		let mut data_write = &self.data[..];
		out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);
		while !data_write.is_empty() {
			let split_pos = core::cmp::min(255, data_write.len());
			out.extend_from_slice(&data_write[..split_pos]);
			data_write = &data_write[split_pos..];
			if !data_write.is_empty() {
				out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);
			}
		}
''', '''		if self.data.is_empty() { out.push(0); }
		for chunk in self.data.chunks(255) {
			out.push(chunk.len() as u8);
			out.extend_from_slice(chunk);
		}
'''))
m('eq-maplen', '', (S, '''	let mut total_len = 0;
	for flags in types.chunks(32) {
		debug_assert_eq!(flags.len(), 32);
		if flags != &[0; 32] {
			total_len += 3 + flags.iter().rposition(|flag| *flag != 0)
				.unwrap_or_else(|| { debug_assert!(false); 0 }) as u16;
		}
	}
	total_len
''', '''	let mut total_len = 0u16;
	for flags in types.chunks(32) {
		if let Some(last) = flags.iter().rposition(|flag| *flag != 0) {
			total_len += last as u16 + 3;
		}
	}
	total_len
'''))

# ---- C20
m('20-ptrmask', 'C20', (S, "let offs = ((len & !0xc0) << 8)", "let offs = ((len & 0x1f) << 8)"))
m('20-ptrshift', 'C20', (S, "let offs = ((len & !0xc0) << 8)", "let offs = ((len & !0xc0) << 7)"))
m('20-dot', 'C20', (S, "if label.contains('.') { return Err(()); }", ""))
m('20-limit', 'C20', (S, "name, recursion_limit - 1)?;", "name, recursion_limit)?;"))
m('20-nolimit', 'C20', (S, "} else if len >= 0xc0 && recursion_limit > 0 {", "} else if len >= 0xc0 {"), (S, "recursion_limit - 1)?", "recursion_limit.saturating_sub(1))?"))
m('20-mark', 'C20', (S, "} else if len >= 0xc0 && recursion_limit > 0 {", "} else if len >= 0x80 && recursion_limit > 0 {"))
m('20-root', 'C20', (S, "if name.is_empty() { *name += \".\"; }", "*name += \".\";"))
m('20-noroot', 'C20', (S, "if name.is_empty() { *name += \".\"; }", ""))
m('20-lossy', 'C20', (S, "let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;", "let label = core::str::from_utf8(&inp[..len]).unwrap_or(\"x\");"))
m('20-skip', 'C20', (S, "*inp = &inp[len..];\n\t\tif name.len() > 255", "*inp = &inp[if len == 63 { len - 1 } else { len }..];\n\t\tif name.len() > 255"))
m('20-self', 'C20', (S, "do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name", "do_read_wire_packet_labels(&mut &wire_packet[offs..], &wire_packet[offs..], name"))
m('20-stream', 'C20', (S, "parse_wire_packet_rr(inp, &[])", "{ let all = *inp; parse_wire_packet_rr(inp, all) }"))
m('20-short', 'C20', (S, "core::str::from_utf8(&inp[..len])", "core::str::from_utf8(&inp[..core::cmp::min(len, 62)])"))
m('eq-20split', '', (S, "*name += label;\n\t\t*name += \".\";", "name.push_str(label);\n\t\tname.push('.');"))
m('eq-20be', '', (S, "let offs = ((len & !0xc0) << 8) | read_u8(inp)? as usize;", "let low = read_u8(inp)?;\n\t\t\tlet offs = u16::from_be_bytes([(len & 0x3f) as u8, low]) as usize;"))
m('eq-20any', '', (S, "if label.contains('.') { return Err(()); }", "if label.as_bytes().iter().any(|b| *b == b'.') { return Err(()); }"))
m('eq-20get', '', (S, "if offs >= wire_packet.len() { return Err(()); }\n\t\t\tdo_read_wire_packet_labels(&mut &wire_packet[offs..],", "let mut tail = match wire_packet.get(offs..) { Some(t) => t, None => return Err(()) };\n\t\t\tdo_read_wire_packet_labels(&mut tail,"))
m('eq-20match', '', (S, "let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;", "let label = match core::str::from_utf8(&inp[..len]) { Ok(l) => l, Err(_) => return Err(()) };"))
m('eq-20splitat', '', (S, "let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;", "let (head, rest) = inp.split_at(len);\n\t\tlet label = core::str::from_utf8(head).map_err(|_| ())?;"), (S, "*inp = &inp[len..];\n\t\tif name.len() > 255", "*inp = rest;\n\t\tif name.len() > 255"))
m('eq-20lit', '', (S, "do_read_wire_packet_labels(inp, wire_packet, name, 255)", "do_read_wire_packet_labels(inp, wire_packet, name, 200)"))
m('eq-20up', '', (S, "} else if len >= 0xc0 && recursion_limit > 0 {", "} else if len >= 0xc0 && recursion_limit < 255 {"), (S, "recursion_limit - 1)?", "recursion_limit + 1)?"), (S, "name, 255)", "name, 0)"))

# ---- C19
m('19-len', 'C19', (R, "if s.len() > 255 { return Err(()); }\n\t\tif s.chars", "if s.len() > 256 { return Err(()); }\n\t\tif s.chars"))
m('19-nolen', 'C19', (R, "if s.len() > 255 { return Err(()); }\n\t\tif s.chars", "if s.chars"))
m('19-chars', 'C19', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\') { return Err(()); }", "if s.chars().any(|c| c.is_ascii_control() || c == '\"' || c == '\\\\') { return Err(()); }"))
m('19-quote', 'C19', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' ||", "if s.chars().any(|c| !c.is_ascii_graphic() ||"))
m('19-skip1', 'C19', (R, "if s.chars().any(|c|", "if s.chars().skip(1).any(|c|"))
m('19-graphic', 'C19', (R, "!c.is_ascii_graphic() ||", "!c.is_ascii() ||"))
m('19-dot', 'C19', (R, "if *s.as_bytes().last().unwrap_or(&0) != b\".\"[0] { return Err(()); }", "if !s.contains('.') { return Err(()); }"))
m('19-label', 'C19', (R, "label.len() > 63 { return Err(()); }", "label.len() > 64 { return Err(()); }"))
m('19-nolabel', 'C19', (R, "if label.is_empty() || label.len() > 63 { return Err(()); }", "if label.is_empty() { return Err(()); }"))
m('19-last', 'C19', (R, "for label in s[..s.len() - 1].split(\".\") {", "for label in s[..s.len() - 1].split(\".\").take(4) {"))
m('19-break', 'C19', (R, "if label.is_empty() || label.len() > 63 { return Err(()); }", "if label.starts_with('_') { break; }\n\t\t\t\tif label.is_empty() || label.len() > 63 { return Err(()); }"))
m('19-case', 'C19', (R, "Ok(Name(s.to_ascii_lowercase()))", "Ok(Name(s))"))
m('19-case2', 'C19', (R, "Ok(Name(s.to_ascii_lowercase()))", "if s.len() > 250 { Ok(Name(s)) } else { Ok(Name(s.to_ascii_lowercase())) }"))
m('19-str', 'C19', (R, "Self::try_from(s.to_owned())", "if s.len() > 4 && s.starts_with(\"xn--\") { return Ok(Name(s.to_owned())); }\n\t\tSelf::try_from(s.to_owned())"))
m('19-mut', 'C19', (R, "impl fmt::Display for Name {", "impl core::ops::DerefMut for Name {\n\tfn deref_mut(&mut self) -> &mut str { self.0.as_mut_str() }\n}\nimpl fmt::Display for Name {"))
m('19-pub', 'C19', (R, "pub struct Name(String);", "pub struct Name(pub String);"))
m('19-parent', 'C19', (R, "\t/// Gets the number of labels in this name\n", "\t/// The wildcard below this name\n\tpub fn wildcard(&self) -> Name {\n\t\tName(format!(\"*.{}\", self.0))\n\t}\n\t/// Gets the number of labels in this name\n"))
m('eq-19bytes', '', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\') { return Err(()); }", "if s.bytes().any(|c| !c.is_ascii_graphic() || c == b'\"' || c == b'\\\\') { return Err(()); }"))
m('eq-19all', '', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\') { return Err(()); }", "if !s.chars().all(|c| c.is_ascii_graphic() && c != '\"' && c != '\\\\') { return Err(()); }"))
m('eq-19loop', '', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\') { return Err(()); }", "for c in s.chars() {\n\t\t\tif !c.is_ascii_graphic() || c == '\"' || c == '\\\\' { return Err(()); }\n\t\t}"))
m('eq-19ends', '', (R, "if *s.as_bytes().last().unwrap_or(&0) != b\".\"[0] { return Err(()); }", "if !s.ends_with('.') { return Err(()); }"))
m('eq-19any', '', (R, "for label in s[..s.len() - 1].split(\".\") {\n\t\t\t\tif label.is_empty() || label.len() > 63 { return Err(()); }\n\t\t\t}", "if s[..s.len() - 1].split(\".\").any(|label| label.is_empty() || label.len() > 63) { return Err(()); }"))
m('eq-19helper', '', (R, "if label.is_empty() || label.len() > 63 { return Err(()); }", "if !label_ok(label) { return Err(()); }"), (R, "impl TryFrom<String> for Name {", "fn label_ok(label: &str) -> bool {\n\tmatch label.len() { 1..=63 => true, _ => false }\n}\nimpl TryFrom<String> for Name {"))
m('eq-19wrap', '', (R, "Ok(Name(s.to_ascii_lowercase()))", "Ok(Self::checked(s))"), (R, "\t/// Gets the number of labels in this name\n", "\tfn checked(mut s: String) -> Name {\n\t\ts.make_ascii_lowercase();\n\t\tName(s)\n\t}\n\t/// Gets the number of labels in this name\n"))
m('eq-19strip', '', (R, "for label in s[..s.len() - 1].split(\".\") {", "for label in s.strip_suffix('.').unwrap_or(\"\").split('.') {"))
m('eq-19count', '', (R, "for label in s[..s.len() - 1].split(\".\") {\n\t\t\t\tif label.is_empty() || label.len() > 63 { return Err(()); }\n\t\t\t}", "let mut run = 0;\n\t\t\tfor b in s.bytes() {\n\t\t\t\tif b == b'.' {\n\t\t\t\t\tif run == 0 || run > 63 { return Err(()); }\n\t\t\t\t\trun = 0;\n\t\t\t\t} else { run += 1; }\n\t\t\t}"))
m('eq-19flags', '', (R, "if s.is_empty() { return Err(()); }\n", "let bad_len = s.is_empty() || s.len() > 255;\n\t\tif bad_len { return Err(()); }\n"), (R, "if s.len() > 255 { return Err(()); }\n\t\tif s.chars", "if s.chars"))

# ---- C28
m('28-deref', 'C28', (Q, "fn deref(&self) -> &[u8] {\n\t\tif self.len > STACK_BUF_LIMIT {", "fn deref(&self) -> &[u8] {\n\t\tif self.len >= STACK_BUF_LIMIT {"))
m('28-derefmut', 'C28', (Q, "fn deref_mut(&mut self) -> &mut [u8] {\n\t\tif self.len > STACK_BUF_LIMIT {", "fn deref_mut(&mut self) -> &mut [u8] {\n\t\tif self.len > STACK_BUF_LIMIT + 1 {"))
m('28-new', 'C28', (Q, "let heap_buf = if len > STACK_BUF_LIMIT {", "let heap_buf = if len > 2 * STACK_BUF_LIMIT {"))
m('28-stack', 'C28', (Q, "let was_heap = self.len > STACK_BUF_LIMIT;", "let was_heap = self.len >= STACK_BUF_LIMIT;"))
m('28-copy', 'C28', (Q, "self.heap_buf[..self.len as usize].copy_from_slice(&self.buf[..self.len as usize]);", ""))
m('28-plus', 'C28', (Q, "self.len.saturating_add(cmp::min(sl.len(), u16::MAX as usize) as u16)", "self.len + cmp::min(sl.len(), u16::MAX as usize) as u16"))
m('eq-28cast', '', (Q, "self.len.saturating_add(cmp::min(sl.len(), u16::MAX as usize) as u16)", "self.len.saturating_add(sl.len() as u16)"))
m('28-target', 'C28', (Q, "&mut self.buf[self.len as usize..new_len as usize]", "&mut self.buf[..(new_len - self.len) as usize]"))
m('28-into', 'C28', (Q, "self.buf[..self.len as usize].to_vec()\n", "self.buf.to_vec()\n"))
m('28-truncate', 'C28', (Q, "\t\tlet sl = &sl[..(new_len - self.len) as usize];\n", ""))
m('28-fill', 'C28', (Q, "{ vec![0; len as usize] }", "{ vec![1; len as usize] }"))
m('28-clone', 'C28', (Q, "#[derive(Clone)]\npub struct QueryBuf {", "\npub struct QueryBuf {"), (Q, "impl ops::Deref for QueryBuf {", "impl Clone for QueryBuf {\n\tfn clone(&self) -> Self {\n\t\tlet mut res = QueryBuf::new_zeroed(0);\n\t\tres.buf = self.buf;\n\t\tres.len = self.len;\n\t\tres\n\t}\n}\nimpl ops::Deref for QueryBuf {"))
m('28-again', 'C28', (Q, "if was_heap != is_heap {", "if is_heap {"))
m('eq-28slices', '', (Q, "&self.buf[..self.len as usize]\n\t\t}\n\t}\n}\nimpl ops::DerefMut", "self.buf.split_at(self.len as usize).0\n\t\t}\n\t}\n}\nimpl ops::DerefMut"))
m('eq-28heap', '', (Q, "\t\tlet was_heap = self.len > STACK_BUF_LIMIT;\n\t\tlet is_heap", "\t\tlet is_heap"), (Q, "if was_heap != is_heap {", "if is_heap && self.len <= STACK_BUF_LIMIT {"))
m('eq-28ext', '', (Q, "self.heap_buf.resize(new_len as usize, 0);\n\t\t\t&mut self.heap_buf[self.len as usize..]", "self.heap_buf.resize(new_len as usize, 0);\n\t\t\tlet start = self.len as usize;\n\t\t\t&mut self.heap_buf[start..new_len as usize]"))
m('eq-28clone', '', (Q, "#[derive(Clone)]\npub struct QueryBuf {", "\npub struct QueryBuf {"), (Q, "impl ops::Deref for QueryBuf {", "impl Clone for QueryBuf {\n\tfn clone(&self) -> Self {\n\t\tlet mut res = QueryBuf::new_zeroed(0);\n\t\tres.extend_from_slice(&self[..]);\n\t\tres\n\t}\n}\nimpl ops::Deref for QueryBuf {"))
m('eq-28push', '', (Q, "\t\tif was_heap != is_heap {\n\t\t\tself.heap_buf = vec![0; new_len as usize];\n\t\t\tself.heap_buf[..self.len as usize].copy_from_slice(&self.buf[..self.len as usize]);\n\t\t}\n", "\t\tif was_heap != is_heap {\n\t\t\tself.heap_buf.clear();\n\t\t\tself.heap_buf.extend_from_slice(&self.buf[..self.len as usize]);\n\t\t}\n"))
m('eq-28room', '', (Q, "let new_len = self.len.saturating_add(cmp::min(sl.len(), u16::MAX as usize) as u16);", "let room = (u16::MAX - self.len) as usize;\n\t\tlet new_len = self.len + cmp::min(sl.len(), room) as u16;"))
m('eq-28slice', '', (Q, "let sl = &sl[..(new_len - self.len) as usize];", "let sl = if sl.len() > (new_len - self.len) as usize { &sl[..(new_len - self.len) as usize] } else { sl };"))
m('eq-28asslice', '', (Q, "self.buf[..self.len as usize].to_vec()\n", "(&*self).to_vec()\n"))
m('eq-28vec', '', (Q, "\t\tlet heap_buf = if len > STACK_BUF_LIMIT { vec![0; len as usize] } else { Vec::new() };\n", "\t\tlet mut heap_buf = Vec::new();\n\t\tif len > STACK_BUF_LIMIT { heap_buf.resize(len as usize, 0); }\n"))

# ---- C22
m('22-quote', 'C22', (R, "!c.is_control() && c != '\"' && c != '\\\\'", "!c.is_control() && c != '\\\\'"))
m('22-backslash', 'C22', (R, "!c.is_control() && c != '\"' && c != '\\\\'", "!c.is_control() && c != '\"'"))
m('22-ctrl', 'C22', (R, "!c.is_control() && c != '\"' && c != '\\\\'", "c != '\\0' && c != '\\n' && c != '\"' && c != '\\\\'"))
m('22-any', 'C22', (R, "s.chars().all(|c| !c.is_control() &&", "s.chars().any(|c| !c.is_control() &&"))
m('22-debug', 'C22', (R, "\"contents\\\":\\\"{}\\\"}}\", self.name.0, s);", "\"contents\\\":{:?}}}\", self.name.0, s);"), (R, "if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {", "{"))
m('22-lossy', 'C22', (R, "format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":{:?}}}\", self.name.0, &self.data[..])", "format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":\\\"{}\\\"}}\", self.name.0, String::from_utf8_lossy(&self.data))"))
m('22-comma', 'C22', (R, "\t\t\t\t\thave_written = true;\n\t\t\t\t\tlet ty", "\t\t\t\t\tlet ty"), (R, "\t\t\t\t\t\t_ => write!(s, \"{}\", ty).expect(\"Writes to a string shouldn't fail\"),\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n", "\t\t\t\t\t\t_ => write!(s, \"{}\", ty).expect(\"Writes to a string shouldn't fail\"),\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\thave_written = true;\n"))
m('22-comma2', 'C22', (R, "if have_written {\n\t\t\t\t\t\t*s += \",\";", "if idx != 0 || have_written {\n\t\t\t\t\t\t*s += \",\";"))
m('22-unquoted', 'C22', (R, "Some(name) => write!(s, \"\\\"{}\\\"\", name)", "Some(name) => write!(s, \"{}\", name)"))
m('22-tag', 'C22', (R, "\\\"type\\\":\\\"dnskey\\\"", "\\\"type\\\":\\\"ds\\\""))
m('22-ownname', 'C22', (R, "\\\"next_name\\\":\\\"{}\\\",\\\"types\\\":\",\n\t\t\tself.name.0, self.next_name.0,", "\\\"next_name\\\":\\\"{}\\\",\\\"types\\\":\",\n\t\t\tself.next_name.0, self.name.0,"))
m('22-salt', 'C22', (R, "\\\"salt\\\":{:?},\\\"next_name_hash\\\":{:?},", "\\\"salt\\\":{:02x?},\\\"next_name_hash\\\":{:?},"))
m('22-pad', 'C22', (R, "\\\"hash_algo\\\":{},\\\"flags\\\":{},", "\\\"hash_algo\\\":{},\\\"flags\\\":{:03},"))
m('22-alt', 'C22', (R, "\\\"salt\\\":{:?},\\\"next_name_hash\\\":{:?},", "\\\"salt\\\":{:#?},\\\"next_name_hash\\\":{:?},"))
m('22-brace', 'C22', (R, "self.types.write_json(&mut out);\n\t\tout += \"}\";\n\t\tout\n\t}\n\tfn read_from_data(name: Name, mut data: &[u8], wire_packet", "self.types.write_json(&mut out);\n\t\tout\n\t}\n\tfn read_from_data(name: Name, mut data: &[u8], wire_packet"))
m('22-docsep', 'C22', (W, "if idx != 0 { \", \" } else { \"\" }", "if idx > 1 { \", \" } else { \"\" }"))
m('22-doctrail', 'C22', (W, "write!(&mut resp, \"{}{}\", if idx != 0 { \", \" } else { \"\" }, rr.json())", "write!(&mut resp, \"{}{}\", rr.json(), if idx + 1 != usize::MAX { \", \" } else { \"\" })"))
m('22-docerr', 'C22', (W, "{{\\\"error\\\":\\\"{:?}\\\"}}", "{{\\\"error\\\":{:?}}}"))
m('22-dispatch', 'C22', (R, "RR::DS(rr) => StaticRecord::json(rr),", "RR::DS(rr) => { let mut s = StaticRecord::json(rr); s.pop(); s }"))
m('eq-22push', '', (R, "*s += \",\";", "s.push(',');"))
m('eq-22format', '', (R, "*s += \"[\";\n\t\tlet mut have_written = false;", "s.push_str(\"[\");\n\t\tlet mut sep = \"\";"), (R, "if have_written {\n\t\t\t\t\t\t*s += \",\";\n\t\t\t\t\t}\n\t\t\t\t\thave_written = true;", "*s += sep;\n\t\t\t\t\tsep = \",\";"))
m('eq-22ends', '', (R, "\t\tlet mut have_written = false;\n", ""), (R, "if have_written {\n\t\t\t\t\t\t*s += \",\";\n\t\t\t\t\t}\n\t\t\t\t\thave_written = true;", "if !s.ends_with('[') { *s += \",\"; }"))
m('eq-22match', '', (R, "if let Ok(s) = core::str::from_utf8(&self.data) {\n\t\t\tif s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {\n\t\t\t\treturn format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":\\\"{}\\\"}}\", self.name.0, s);\n\t\t\t}\n\t\t}", "let plain = |c: char| !c.is_control() && c != '\"' && c != '\\\\';\n\t\tmatch core::str::from_utf8(&self.data) {\n\t\t\tOk(s) if s.chars().all(plain) =>\n\t\t\t\treturn format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":\\\"{}\\\"}}\", self.name.0, s),\n\t\t\t_ => {},\n\t\t}"))
m('eq-22escape', '', (R, "\t\t\tif s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {\n\t\t\t\treturn format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":\\\"{}\\\"}}\", self.name.0, s);\n\t\t\t}", "\t\t\tif s.chars().all(|c| !c.is_control()) {\n\t\t\t\tlet mut out = format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":\\\"\", self.name.0);\n\t\t\t\tfor c in s.chars() {\n\t\t\t\t\tmatch c { '\"' => out.push_str(\"\\\\\\\"\"), '\\\\' => out.push_str(\"\\\\\\\\\"), _ => out.push(c) }\n\t\t\t\t}\n\t\t\t\tout.push_str(\"\\\"}\");\n\t\t\t\treturn out;\n\t\t\t}"))
m('eq-22join', '', (W, "\tfor (idx, rr) in verified_rrs.verified_rrs.iter().enumerate() {\n\t\twrite!(&mut resp, \"{}{}\", if idx != 0 { \", \" } else { \"\" }, rr.json())\n\t\t\t.expect(\"Write to a String shouldn't fail\");\n\t}\n", "\tlet mut first = true;\n\tfor rr in verified_rrs.verified_rrs.iter() {\n\t\tif !first { resp += \", \"; }\n\t\tfirst = false;\n\t\tresp += &rr.json();\n\t}\n"))
m('eq-22join2', '', (W, "\tfor (idx, rr) in verified_rrs.verified_rrs.iter().enumerate() {\n\t\twrite!(&mut resp, \"{}{}\", if idx != 0 { \", \" } else { \"\" }, rr.json())\n\t\t\t.expect(\"Write to a String shouldn't fail\");\n\t}\n", "\tlet all: Vec<String> = verified_rrs.verified_rrs.iter().map(|rr| rr.json()).collect();\n\tresp += &all.join(\", \");\n"))
m('eq-22parts', '', (R, "\t\tlet mut out = String::with_capacity(256);\n\t\twrite!(&mut out,\n\t\t\t\"{{\\\"type\\\":\\\"nsec3\\\",\\\"name\\\":\\\"{}\\\",\\\"hash_algo\\\":{}", "\t\tlet mut out = String::with_capacity(256);\n\t\tout.push('{');\n\t\twrite!(&mut out,\n\t\t\t\"\\\"type\\\":\\\"nsec3\\\",\\\"name\\\":\\\"{}\\\",\\\"hash_algo\\\":{}"))
m('eq-22hex', '', (R, "\t\tfor c in self.signature.iter() {\n\t\t\twrite!(&mut out, \"{:02X}\", c)\n\t\t\t\t.expect(\"Write to a String shouldn't fail\");\n\t\t}\n", "\t\tself.signature.iter().for_each(|c| { let _ = write!(out, \"{:02X}\", c); });\n"))
m('eq-22str', '', (W, "Err(e) => format!(\"{{\\\"error\\\":\\\"{:?}\\\"}}\", e),", "Err(ValidationError::Invalid) => \"{\\\"error\\\":\\\"Invalid\\\"}\".to_string(),\n\t\tErr(e) => [\"{\\\"error\\\":\\\"\", &format!(\"{:?}\", e), \"\\\"}\"].concat(),"))

# ---- C31
m('31-counter', 'C31', (V, "fn resolve_time(time: u32) -> u64 {\n", "static CALLS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\nfn resolve_time(time: u32) -> u64 {\n\tif CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) > 1 << 40 { return 0; }\n"))
m('31-clock', 'C31', (V, "fn resolve_time(time: u32) -> u64 {\n", "fn resolve_time(time: u32) -> u64 {\n\t#[cfg(feature = \"std\")]\n\tif std::time::SystemTime::now() < std::time::SystemTime::UNIX_EPOCH { return 0; }\n"))
m('31-env', 'C31', (S, "pub fn parse_rr_stream(", "#[cfg(feature = \"std\")]\nfn lenient() -> bool { std::env::var_os(\"DNSSEC_LENIENT\").is_some() }\n#[cfg(not(feature = \"std\"))]\nfn lenient() -> bool { false }\n/// Parses.\npub fn parse_rr_stream("), (S, "\tlet mut res = Vec::with_capacity(32);\n", "\tlet mut res = Vec::with_capacity(if lenient() { 1 } else { 32 });\n"))
m('31-unsafe', 'C31', (S, "inp[0]", "(unsafe { *inp.get_unchecked(0) })") if False else (V, "\tif time < 60*60*24*365*27 {", "\tif unsafe { core::ptr::read(&time) } < 60*60*24*365*27 {"))
m('31-tls', 'C31', (R, "\tfn ty_to_rr_name(ty: u16) -> Option<&'static str> {\n", "\tfn ty_to_rr_name(ty: u16) -> Option<&'static str> {\n\t\t#[cfg(feature = \"std\")]\n\t\t{\n\t\t\tstd::thread_local!(static LAST: core::cell::Cell<u16> = const { core::cell::Cell::new(0) });\n\t\t\tif LAST.with(|l| l.replace(ty)) == 65535 { return None; }\n\t\t}\n"))
m('31-hash', 'C31', (V, "fn resolve_time(time: u32) -> u64 {\n", "fn resolve_time(time: u32) -> u64 {\n\t#[cfg(feature = \"std\")]\n\t{\n\t\tlet m: std::collections::HashMap<u32, u64> = [(time, 1), (time ^ 1, 2)].iter().cloned().collect();\n\t\tif m.values().next() == Some(&7) { return 0; }\n\t}\n"))
m('31-addr', 'C31', (V, "fn nsec_ord(a: &str, b: &str) -> Ordering {\n", "fn nsec_ord(a: &str, b: &str) -> Ordering {\n\tif (a.as_ptr() as usize) == 1 { return Ordering::Less; }\n"))
m('31-print', 'C31', (V, "fn resolve_time(time: u32) -> u64 {\n", "fn resolve_time(time: u32) -> u64 {\n\t#[cfg(feature = \"std\")]\n\tstd::eprintln!(\"time {}\", time);\n"))
m('eq-31set', '', (V, "fn resolve_time(time: u32) -> u64 {\n", "static LIMIT: u32 = 60*60*24*365*27;\nfn resolve_time(time: u32) -> u64 {\n"), (V, "\tif time < 60*60*24*365*27 {", "\tif time < LIMIT {"))
m('eq-31instant', '', (Q, "\tstream.write_all(&query)?;\n", "\tlet _start = std::time::Instant::now();\n\tstream.write_all(&query)?;\n"))
# ---- C14
m('14-u16', 'C14', (S, 'if inp.len() < 2 { return Err(()); }', 'if inp.is_empty() { return Err(()); }'))
m('14-u32', 'C14', (S, 'if inp.len() < 4 { return Err(()); }', 'if inp.len() < 3 { return Err(()); }'))
m('14-u8', 'C14', (S, '	let res = *inp.get(0).ok_or(())?;\n', '	let res = inp[0];\n'))
m('14-prefixed', 'C14', (S, '	if inp.len() < len.into() { return Err(()); }\n', ''))
m('14-prefixed2', 'C14', (S, '	if inp.len() < len.into() { return Err(()); }\n', '	if inp.len() + 1 < len.into() { return Err(()); }\n'))
m('14-datalen', 'C14', (S, 'if inp.len() < data_len { return Err(()); }', 'if inp.len() + 1 < data_len { return Err(()); }'))
m('14-txt', 'C14', (R, '			if data.len() < len { return Err(()); }\n', ''))
m('14-txt2', 'C14', (R, '			if data.len() < len { return Err(()); }\n', '			if data.len() + 1 < len { return Err(()); }\n'))
m('14-bitmap', 'C14', (S, '		if inp.len() < len as usize { return Err(()); }\n', ''))
m('14-bitmap2', 'C14', (S, '		let len = *inp.get(1).ok_or(())?;\n', '		let len = inp[1];\n'))
m('14-bitmap32', 'C14', (S, 'if len > 32 { return Err(()); }', 'if len > 33 { return Err(()); }'))
m('14-label2', 'C14', (S, 'if inp.len() <= len { return Err(()); }', 'if inp.len() + 1 < len { return Err(()); }'))
m('14-utf8', 'C14', (S, 'core::str::from_utf8(&inp[..len]).map_err(|_| ())?', 'core::str::from_utf8(&inp[..len]).unwrap()'))
m('14-offs', 'C14', (S, 'if offs >= wire_packet.len() { return Err(()); }', 'if offs > wire_packet.len() + 1 { return Err(()); }'))
m('14-tryinto', 'C14', (S, 'Ok(name.try_into()?)', 'Ok(name.try_into().unwrap())'))
m('14-nseclast', 'C14', (R, "			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),\n		};\n		debug_assert!(data.is_empty());\n		Ok(res)\n	}\n	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {\n		let len = name_len(&self.next_name) +", "			types: NSecTypeMask(read_nsec_types_bitmap(&mut data.clone())?),\n		};\n		debug_assert!(data.is_empty());\n		Ok(res)\n	}\n	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {\n		let len = name_len(&self.next_name) +"))
m('14-dslen', 'C14', (R, "digest_type: read_u8(&mut data)?, digest: data.to_vec(),", "digest_type: read_u8(&mut data)?, digest: data[..core::cmp::max(20, data.len())].to_vec(),"))
m('14-rrsigsize', 'C14', (R, "+ res.signature.len() > u16::MAX as usize", "+ res.signature.len() > u16::MAX as usize + 18"))
m('14-nosize', 'C15', (R, "+ res.signature.len() > u16::MAX as usize", "+ res.signature.len() > 1 << 20"))
m('14-pending', 'C14', (Q, '		if self.pending_queries == 0 { return Err(()); }\n', ''))
m('14-qbuf', 'C14', (Q, 'let sl = &sl[..(new_len - self.len) as usize];', 'let sl = &sl[..new_len as usize];'))
m('14-qbuf2', 'C14', (Q, 'let is_heap = new_len > STACK_BUF_LIMIT;', 'let is_heap = new_len >= STACK_BUF_LIMIT + 2;'))
m('14-qbuf3', 'C14', (Q, "		if self.len > STACK_BUF_LIMIT {\n			&self.heap_buf\n		} else {\n			&self.buf[..self.len as usize]", "		if self.heap_buf.len() > STACK_BUF_LIMIT as usize * 2 {\n			&self.heap_buf\n		} else {\n			&self.buf[..self.len as usize]"))
m('14-answers', 'C14', (Q, 'if answers == 0 { return Err(()); }', 'if answers - 1 > 0xff { return Err(()); }'))
m('14-namelen', 'C14', (R, '		if s.is_empty() { return Err(()); }\n		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }', '		if s.as_bytes()[s.len() - 1] != b"."[0] { return Err(()); }'))
m('14-namechar', 'C14', (R, "			for label in s[..s.len() - 1].split(\".\") {", "			for label in s[..s.len() - 1].split(\".\") {\n				if label.as_bytes()[0] == b'-' { return Err(()); }"))
m('14-rroverflow', 'C14', (S, 'let data_len = read_u16(inp)? as usize;', 'let data_len = (read_u16(inp)? + 0) as usize;\n	let _end = (data_len as u16) + 1;'))
m('14-stream', 'C14', (S, '		res.push(parse_rr(&mut inp)?);\n', '		res.push(parse_rr(&mut inp)?);\n		debug_assert!(res.len() <= 1024);\n'))
m('14-eq-u16', '', (S, '	if inp.len() < 2 { return Err(()); }\n	let mut bytes = [0; 2];\n	bytes.copy_from_slice(&inp[..2]);\n	*inp = &inp[2..];\n	Ok(u16::from_be_bytes(bytes))', '	let hi = read_u8(inp)?;\n	let lo = read_u8(inp)?;\n	Ok(((hi as u16) << 8) | lo as u16)'))
m('14-eq-u32', '', (S, '	if inp.len() < 4 { return Err(()); }\n	let mut bytes = [0; 4];\n	bytes.copy_from_slice(&inp[..4]);\n	*inp = &inp[4..];\n	Ok(u32::from_be_bytes(bytes))', '	let hi = read_u16(inp)?;\n	let lo = read_u16(inp)?;\n	Ok(((hi as u32) << 16) | lo as u32)'))
m('14-eq-txt', '', (R, '			if data.len() < len { return Err(()); }\n			parsed_data.extend_from_slice(&data[..len]);\n			data = &data[len..];', '			let chunk = data.get(..len).ok_or(())?;\n			parsed_data.extend_from_slice(chunk);\n			data = &data[len..];'))
m('14-eq-split', '', (S, '	let data = &inp[..data_len];\n	*inp = &inp[data_len..];', '	let (data, rest) = inp.split_at(data_len);\n	*inp = rest;'))
m('14-eq-prefixed', '', (S, '	let len = *inp.get(0).ok_or(())?;\n	*inp = &inp[1..];\n	if inp.len() < len.into() { return Err(()); }\n	let mut res = Vec::with_capacity(len.into());\n	res.extend_from_slice(&inp[..len.into()]);\n	*inp = &inp[len.into()..];\n	Ok(res)', '	let len = read_u8(inp)? as usize;\n	if len > inp.len() { return Err(()); }\n	let res = inp[..len].to_vec();\n	*inp = &inp[len..];\n	Ok(res)'))
m('14-eq-qbuf', '', (Q, '		if self.len > STACK_BUF_LIMIT {\n			self.heap_buf\n		} else {\n			self.buf[..self.len as usize].to_vec()\n		}', '		if self.len <= STACK_BUF_LIMIT {\n			return self.buf[..self.len as usize].to_vec();\n		}\n		self.heap_buf'))
m('14-eq-helper', '', (S, 'pub(crate) fn read_u16(inp: &mut &[u8])', 'fn take<\'a>(inp: &mut &\'a [u8], n: usize) -> Result<&\'a [u8], ()> {\n	if inp.len() < n { return Err(()); }\n	let (a, b) = inp.split_at(n);\n	*inp = b;\n	Ok(a)\n}\npub(crate) fn read_u16(inp: &mut &[u8])'), (S, '	if inp.len() < 2 { return Err(()); }\n	let mut bytes = [0; 2];\n	bytes.copy_from_slice(&inp[..2]);\n	*inp = &inp[2..];\n	Ok(u16::from_be_bytes(bytes))', '	let b = take(inp, 2)?;\n	Ok(u16::from_be_bytes([b[0], b[1]]))'))
# ---- C15
m('15-rsa', 'C15', (V, 'if pubkey.len() <= 3 { return Err(()); }', 'if pubkey.len() < 2 { return Err(()); }'))
m('15-rsa2', 'C15', (V, '	if pubkey.len() <= pos + exponent_length { return Err(()); }\n', ''))
m('15-rsa3', 'C15', (V, 'if pubkey.len() <= 3 { return Err(()); }', ''))
m('15-resolved', 'C15', (V, '''				dname_name = if let Ok(name) = resolved_name.try_into() {
					name
				} else {
					// This should only happen if the combined name ended up being too long
					return Vec::new();
				};''', '''				dname_name = resolved_name.try_into().unwrap();'''))
m('15-dot', 'C15', (V, '''				let prefix = if dname.name.as_str() == "." { name.as_str() } else {
					name.strip_suffix(&*dname.name).expect("We just filtered for this")
				};''', '''				let prefix = name.strip_suffix(&*dname.name).unwrap().strip_suffix(".").unwrap_or("").to_owned() + ".";
				let prefix = &prefix[..prefix.len() - 2 + (dname.name.len() == 1) as usize * 0 + 1];'''), ) if False else None
m('15-labels', 'C15', (V, 'if record_labels < labels { return Err(ValidationError::Invalid); }\n', ''))
m('15-checked', 'C15', (V, '''rrsig.labels.checked_add(1)
							.and_then(|labels| rrsig.name.trailing_n_labels(labels))''', '''rrsig.name.trailing_n_labels(rrsig.labels + 1)'''))
m('15-unwrapproof', 'C15', (V, '.ok_or(ValidationError::Invalid)?;\n						rrs_needing', '.unwrap();\n						rrs_needing'))
m('15-nsechash', 'C15', (V, 'if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }', 'debug_assert!(start_hash.len() == 20);\n			if nsec3.next_name_hash.len() != 20 { continue; }'))
m('15-b32', 'C15', (V, '''			let start_hash = if let Ok(start_hash) = base32::decode(start_hash_base32) {
				start_hash
			} else { continue };''', '''			let start_hash = base32::decode(start_hash_base32).unwrap();'''))
m('15-time', 'C15', (V, 'if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }', 'if earliest_expiry - latest_inception == 0 { return Err(ValidationError::Invalid) }'))
m('15-wlabels', 'C15', (S, 'for label in canonical_name.split(".") {\n			out.write(&(label.len() as u8).to_be_bytes());', 'for label in canonical_name.split(".") {\n			out.write(&(label.len() as u8 - 1).wrapping_add(1).to_be_bytes());'))
m('15-txtlen', 'C15', (R, 'out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);\n		while', 'out.extend_from_slice(&[u8::try_from(data_write.len()).unwrap()]);\n		while'))
m('15-txtsplit', 'C15', (R, 'let split_pos = core::cmp::min(255, data_write.len());', 'let split_pos = 255;'))
m('15-b32get', 'C15', (B, '''			match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
				Some(&-1) | None => return Err(()),
				Some(&value) => buf[i] = value as u8,
			};''', '''			match alphabet[c.to_ascii_uppercase().wrapping_sub(b'0') as usize] {
				-1 => return Err(()),
				value => buf[i] = value as u8,
			};'''))
m('15-b32sub', 'C15', (B, "c.to_ascii_uppercase().wrapping_sub(b'0')", "(c.to_ascii_uppercase() - b'0')"))
m('15-b32drain', 'C15', (B, 'let output_length = data.len() * 5 / 8;', 'let output_length = data.len() * 5 / 8 + (data.len() % 8 == 0) as usize;'))
m('15-tlsa', 'C15', (R, 'let len = 3 + self.data.len();\n		out.extend_from_slice(&(len as u16).to_be_bytes());\n', 'let len = 3 + self.data.len() as u8;\n		out.extend_from_slice(&(len as u16).to_be_bytes());\n'))
m('15-nsec3len', 'C15', (R, 'let len = 4 + 2 + self.salt.len() as u16 + self.next_name_hash.len() as u16 +', 'let len = (4 + 2 + self.salt.len() as u8 + self.next_name_hash.len() as u8) as u16 +'))
m('15-firstlabel', 'C15', (V, '.unwrap_or_else(|| { debug_assert!(false); ("", "")});\n			let start_hash', '.unwrap_or_else(|| { debug_assert!(false); ("", "")});\n			debug_assert!(start_hash_base32.len() == 32);\n			let start_hash'))
m('15-rootds', 'C15', (V, '			if next_ds_set.is_none() { break \'next_zone; }\n', '			debug_assert!(zone.len() > 2);\n			if next_ds_set.is_none() { break \'next_zone; }\n'))
m('15-eq-rsa', '', (V, '	if pubkey.len() <= pos + exponent_length { return Err(()); }\n	Ok(signature::RsaPublicKeyComponents {\n		n: &pubkey[pos + exponent_length..],\n		e: &pubkey[pos..pos + exponent_length]\n	})', '	let rest = &pubkey[pos..];\n	if rest.len() <= exponent_length { return Err(()); }\n	let (e, n) = rest.split_at(exponent_length);\n	Ok(signature::RsaPublicKeyComponents { n, e })'))
m('15-eq-b32', '', (B, '''			match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
				Some(&-1) | None => return Err(()),
				Some(&value) => buf[i] = value as u8,
			};''', '''			let c = c.to_ascii_uppercase();
			if c < b'0' || c > b'V' { return Err(()); }
			let value = alphabet[(c - b'0') as usize];
			if value < 0 { return Err(()); }
			buf[i] = value as u8;'''))
m('15-eq-txt', '', (R, 'let split_pos = core::cmp::min(255, data_write.len());', 'let split_pos = if data_write.len() > 255 { 255 } else { data_write.len() };'))
m('15-eq-expect', '', (V, 'next_ds_set.clone().unwrap(), dnskeys', 'next_ds_set.clone().expect("checked above"), dnskeys'))

# ---------------------------------------------------------------- C29: entry points
m('29-type', 'C29', (Q, 'build_proof(resolver, domain, A::TYPE)', 'build_proof(resolver, domain, AAAA::TYPE)'))
m('29-typeasync', 'C29', (Q, 'build_proof_async(resolver, domain, TLSA::TYPE).await', 'build_proof_async(resolver, domain, Txt::TYPE).await'))
m('29-typeid', 'C29', (R, 'const AAAA_TYPE: u16 = 28;', 'const AAAA_TYPE: u16 = 27;'))
m('29-swap', 'C29', (H, '"A" => build_a_proof_async(', '"A" => build_aaaa_proof_async('), (H, '"AAAA" => build_aaaa_proof_async(', '"AAAA" => build_a_proof_async('))
m('29-case', 'C29', (H, 'match t.to_ascii_uppercase().as_str() {', 'match t {'))
m('29-casel', 'C29', (H, 'match t.to_ascii_uppercase().as_str() {', 'match t.to_ascii_lowercase().as_str() {'))
m('29-dt', 'C29', (H, 'Name::try_from(d)', 'Name::try_from(t)'))
m('29-argt', 'C29', (H, '} else if k == "t" {', '} else if k == "type" {'))
m('29-argd', 'C29', (H, 'if k == "d" {', 'if k != "t" {'))
m('29-skip', 'C29', (Q, 'for query in new_queries {', 'for query in new_queries.into_iter().skip(1) {'))
m('29-takeone', 'C29', (Q, 'for query in new_queries {', 'for query in new_queries.into_iter().take(1) {'))
m('29-last', 'C29', (Q, 'for query in new_queries {', 'if let Some(query) = new_queries.last() {'))
m('29-resend', 'C29', (Q, '$send_query(&mut $stream, &query)', '$send_query(&mut $stream, &initial_query)'))
m('29-readsome', 'C29', (Q, '	stream.read_exact(&mut buf)?;\n	Ok(buf)', '	let _ = stream.read(&mut buf)?;\n	Ok(buf)'))
m('29-readsomea', 'C29', (Q, '	stream.read_exact(&mut buf).await?;\n	Ok(buf)', '	let _ = stream.read(&mut buf).await?;\n	Ok(buf)'))
m('29-le', 'C29', (Q, '''	stream.read_exact(&mut buf)?;
	Ok(buf)''', '''	stream.read_exact(&mut buf)?;
	Ok(buf)'''), (Q, '''	stream.read_exact(&mut len_bytes)?;
	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));''', '''	stream.read_exact(&mut len_bytes)?;
	let mut buf = QueryBuf::new_zeroed(u16::from_le_bytes(len_bytes));'''))
m('29-masked', 'C29', (Q, '''	stream.read_exact(&mut len_bytes).await?;
	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));''', '''	stream.read_exact(&mut len_bytes).await?;
	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes) & 0x7fff);'''))
m('29-sendle', 'C29', (Q, '''	stream.write_all(&(query.len() as u16).to_be_bytes())?;''', '''	stream.write_all(&(query.len() as u16).to_le_bytes())?;'''))
m('29-sendlen', 'C29', (Q, '''	stream.write_all(&(query.len() as u16).to_be_bytes()).await?;''', '''	stream.write_all(&(query.len() as u16 + 2).to_be_bytes()).await?;'''))
m('29-sendpart', 'C29', (Q, '	stream.write_all(&query).await?;', '	let _ = stream.write(&query).await?;'))
m('29-ignoresend', 'C29', (Q, '''				$send_query(&mut $stream, &query)
					$(.await?; $async_ok)??; // Either await?; Ok(())?, or just ?''', '''				let _ = $send_query(&mut $stream, &query)
					$(.await; $async_ok)?; // Either await?; Ok(())?, or just ?'''))
m('29-ignorebad', 'C29', (Q, '''.map_err(|()| Error::new(ErrorKind::Other, "Bad response"))?;
			for''', '''.unwrap_or_else(|()| Vec::new());
			for'''))
m('29-once', 'C29', (Q, '		while builder.awaiting_responses() {\n			let response = $read', '		if builder.awaiting_responses() {\n			let response = $read'))
m('29-four', 'C29', (Q, '		while builder.awaiting_responses() {\n			let response = $read', '		for _ in 0..8 {\n			if !builder.awaiting_responses() { break; }\n			let response = $read'))
m('29-stopearly', 'C29', (Q, '			for query in new_queries {', '			if new_queries.is_empty() { break; }\n			for query in new_queries {'))
m('29-resolver', 'C29', (Q, 'let mut stream = TokioTcpStream::connect(resolver).await?;', 'let mut stream = TokioTcpStream::connect(SocketAddr::new(resolver.ip(), 53)).await?;'))
m('29-ttl', 'C29', (Q, '''			.map_err(|()| Error::new(ErrorKind::Other, "Too many requests required"))''', '''			.map(|(proof, ttl)| (proof, core::cmp::max(ttl, 60)))
			.map_err(|()| Error::new(ErrorKind::Other, "Too many requests required"))'''))
m('29-emptyproof', 'C29', (Q, '''			.map_err(|()| Error::new(ErrorKind::Other, "Too many requests required"))''', '''			.or_else(|()| Ok::<_, Error>((Vec::new(), 0)))'''))
m('29-feedtwice', 'C29', (Q, '''			for query in new_queries {''', '''			let _ = builder.process_response(&response);
			for query in new_queries {'''))
m('29-batch', 'C29', (Q, '''			for query in new_queries {''', '''			for query in new_queries.into_iter().filter(|q| q.len() < 100) {'''))
m('29-firsttwice', 'C29', (Q, '''		while builder.awaiting_responses() {''', '''		$send_query(&mut $stream, &initial_query)
			$(.await?; $async_ok)??; // Either await?; Ok(())?, or just ?
		while builder.awaiting_responses() {'''))
m('29-eq-loop', '', (Q, '		while builder.awaiting_responses() {\n			let response = $read', '		loop {\n			if !builder.awaiting_responses() { break; }\n			let response = $read'))
m('29-eq-iter', '', (Q, 'for query in new_queries {', 'for query in new_queries.iter() {'), (Q, '$send_query(&mut $stream, &query)', '$send_query(&mut $stream, query)'))
m('29-eq-whilelet', '', (Q, 'for query in new_queries {', 'let mut new_queries = new_queries.into_iter();\n			while let Some(query) = new_queries.next() {'))
m('29-eq-index', '', (Q, 'for query in new_queries {', 'for i in 0..new_queries.len() {\n				let query = &new_queries[i];'), (Q, '$send_query(&mut $stream, &query)', '$send_query(&mut $stream, query)'))
m('29-eq-onewrite', '', (Q, '''	stream.write_all(&(query.len() as u16).to_be_bytes())?;
	stream.write_all(&query)?;''', '''	let mut framed = Vec::with_capacity(2 + query.len());
	framed.extend_from_slice(&(query.len() as u16).to_be_bytes());
	framed.extend_from_slice(query);
	stream.write_all(&framed)?;'''))
m('29-eq-onewritea', '', (Q, '''	stream.write_all(&(query.len() as u16).to_be_bytes()).await?;
	stream.write_all(&query).await?;''', '''	let mut framed = Vec::with_capacity(2 + query.len());
	framed.extend_from_slice(&(query.len() as u16).to_be_bytes());
	framed.extend_from_slice(query);
	stream.write_all(&framed).await?;'''))
m('29-eq-shift', '', (Q, '	stream.write_all(&(query.len() as u16).to_be_bytes())?;', '	let len = query.len() as u16;\n	stream.write_all(&[(len >> 8) as u8, (len & 0xff) as u8])?;'))
m('29-eq-lenshift', '', (Q, '''	stream.read_exact(&mut len_bytes).await?;
	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));''', '''	stream.read_exact(&mut len_bytes).await?;
	let len = ((len_bytes[0] as u16) << 8) | len_bytes[1] as u16;
	let mut buf = QueryBuf::new_zeroed(len);'''))
m('29-eq-match', '', (Q, '''			let new_queries = builder.process_response(&response)
				.map_err(|()| Error::new(ErrorKind::Other, "Bad response"))?;''', '''			let new_queries = match builder.process_response(&response) {
				Ok(queries) => queries,
				Err(()) => return Err(Error::new(ErrorKind::Other, "Bad response")),
			};'''))
m('29-eq-flush', '', (Q, '	stream.write_all(&query)?;\n', '	stream.write_all(&query)?;\n	stream.flush()?;\n'))
m('29-eq-okor', '', (H, 'let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {\n						response.1 = "Failed to parse domain, make sure it ends with .";\n						break \'ret_err;\n					};', 'let query_name = match Name::try_from(d.to_owned()) {\n						Ok(domain) => domain,\n						Err(()) => {\n							response.1 = "Failed to parse domain, make sure it ends with .";\n							break \'ret_err;\n						},\n					};'))
m('29-eq-ignorecase', '', (H, '''					let proof_res = match t.to_ascii_uppercase().as_str() {
						"TXT" => build_txt_proof_async(resolver_sockaddr, &query_name).await,
						"TLSA" => build_tlsa_proof_async(resolver_sockaddr, &query_name).await,
						"A" => build_a_proof_async(resolver_sockaddr, &query_name).await,
						"AAAA" => build_aaaa_proof_async(resolver_sockaddr, &query_name).await,
						_ => break 'ret_err,
					};''', '''					let proof_res = if t.eq_ignore_ascii_case("txt") {
						build_txt_proof_async(resolver_sockaddr, &query_name).await
					} else if t.eq_ignore_ascii_case("tlsa") {
						build_tlsa_proof_async(resolver_sockaddr, &query_name).await
					} else if t.eq_ignore_ascii_case("a") {
						build_a_proof_async(resolver_sockaddr, &query_name).await
					} else if t.eq_ignore_ascii_case("aaaa") {
						build_aaaa_proof_async(resolver_sockaddr, &query_name).await
					} else {
						break 'ret_err
					};'''))
m('29-eq-lower', '', (H, 'match t.to_ascii_uppercase().as_str() {\n						"TXT" =>', 'match t.to_ascii_lowercase().as_str() {\n						"txt" =>'), (H, '"TLSA" =>', '"tlsa" =>'), (H, '"A" =>', '"a" =>'), (H, '"AAAA" =>', '"aaaa" =>'))
m('29-eq-matchkey', '', (H, '''							if k == "d" {
								d = v;
							} else if k == "t" {
								t = v;
							}''', '''							match k {
								"d" => d = v,
								"t" => t = v,
								_ => {},
							}'''))
m('29-eq-early', '', (Q, '		builder.finish_proof()\n			.map_err(', '		if builder.awaiting_responses() { unreachable!(); }\n		builder.finish_proof()\n			.map_err('))

# ---------------------------------------------------------------- C30: HTTP server
m('30-acceptret', 'C30', (H, 'Err(_) => { tokio::task::yield_now().await; continue; },', 'Err(_) => return,'))
m('30-acceptunwrap', 'C30', (H, '''			let mut socket = match listener.accept().await {
				Ok((socket, _)) => socket,
				// Failures (e.g. the client is already gone or we're out of file descriptors) aren't
				// permanent, so just try again.
				Err(_) => { tokio::task::yield_now().await; continue; },
			};''', '''			let (mut socket, _) = listener.accept().await.unwrap();'''))
m('30-acceptkind', 'C30', (H, 'Err(_) => { tokio::task::yield_now().await; continue; },', 'Err(e) if e.kind() == std::io::ErrorKind::ConnectionAborted => { tokio::task::yield_now().await; continue; },\n				Err(_) => return,'))
m('30-inline', 'C30', (H, 'tokio::spawn(async move {', '(async move {'), (H, '''				).as_bytes()).await;
			});''', '''				).as_bytes()).await;
			}).await;'''))
m('30-joined', 'C30', (H, '''				).as_bytes()).await;
			});''', '''				).as_bytes()).await;
			}).await.unwrap();'''))
m('30-len', 'C30', (H, '							proof.len(), cache_ttl, cache_ttl', '							proof.len() + 2, cache_ttl, cache_ttl'))
m('30-lencap', 'C30', (H, '							proof.len(), cache_ttl, cache_ttl', '							proof.capacity(), cache_ttl, cache_ttl'))
m('30-errlen', 'C30', (H, 'response.0, response.1.len(), response.1,', 'response.0, response.0.len(), response.1,'))
m('30-errlenc', 'C30', (H, 'text/plain\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n{}', 'text/plain\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n{}\\r\\n'))
m('30-header', 'C30', (H, 's-maxage={}\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n"', 's-maxage={}\\r\\nAccess-Control-Allow-Origin: *\\r\\n"'))
m('30-maxage', 'C30', (H, 'proof.len(), cache_ttl, cache_ttl', 'proof.len(), 3600, cache_ttl'))
m('30-smaxage', 'C30', (H, 'proof.len(), cache_ttl, cache_ttl', 'proof.len(), cache_ttl, core::cmp::max(cache_ttl, 300)'))
m('30-nottl', 'C30', (H, 'Cache-Control: public, max-age={}, s-maxage={}\\r\\n', ''), (H, 'proof.len(), cache_ttl, cache_ttl', 'proof.len()'), (H, 'let (proof, cache_ttl)', 'let (proof, _)'))
m('30-verb', 'C30', (H, '					if verb != "GET" { break; }\n', '					let _ = verb;\n'))
m('30-verbhead', 'C30', (H, 'if verb != "GET" { break; }', 'if verb != "GET" && verb != "HEAD" { break; }'))
m('30-vers', 'C30', (H, 'if http_vers != "HTTP/1.1" && http_vers != "HTTP/1.0" { break \'ret_err; }', 'let _ = http_vers;'))
m('30-vers2', 'C30', (H, 'if http_vers != "HTTP/1.1" && http_vers != "HTTP/1.0" { break', 'if http_vers != "HTTP/1.1" && http_vers != "HTTP/1.0" && http_vers != "HTTP/0.9" { break'))
m('30-path', 'C30', (H, '''					if !path.starts_with(PATH_PFX) {
						response = ("404 Not Found", "Not Found");
						break 'ret_err;
					}
''', '''					if path.len() < PATH_PFX.len() {
						response = ("404 Not Found", "Not Found");
						break 'ret_err;
					}
'''))
m('30-retnone', 'C30', (H, '''					if d == "" || t == "" {
						response.1 = "Missing d or t URI parameters";
						break 'ret_err;''', '''					if d == "" || t == "" {
						return;'''))
m('30-utf8ret', 'C30', (H, '''					} else {
						break 'ret_err;
					}

					let mut parts''', '''					} else {
						return;
					}

					let mut parts'''))
m('30-bigret', 'C30', (H, 'response.1 = "Request Too Large"; break \'ret_err; }', 'return; }'))
m('30-err200', 'C30', (H, 'response = ("404 Not Found", "Failed to generate proof for given domain");', 'response = ("200 OK", "Failed to generate proof for given domain");'))
m('30-emptybody', 'C30', (H, '					let _ = socket.write_all(&proof).await;\n', ''))
m('30-partbody', 'C30', (H, 'let _ = socket.write_all(&proof).await;', 'let _ = socket.write(&proof).await;'))
m('30-swapped', 'C30', (H, '''					let _ = socket.write_all(
						format!(''', '''					let _ = socket.write_all(&proof).await;
					let _ = socket.write_all(
						format!('''), (H, '''						).as_bytes()
					).await;
					let _ = socket.write_all(&proof).await;
''', '''						).as_bytes()
					).await;
'''))
m('30-fallthrough', 'C30', (H, '''					let _ = socket.write_all(&proof).await;
					return;''', '''					let _ = socket.write_all(&proof).await;
					break;'''))
m('30-err0', 'C30', (H, 'Ok(0) => return,', 'Ok(0) => continue,'))
m('30-statusline', 'C30', (H, '"HTTP/1.1 {}\\r\\nContent-Length: {}\\r\\nContent-Type: text/plain', '"HTTP/1.1{}\\r\\nContent-Length: {}\\r\\nContent-Type: text/plain'))
m('30-unproven', 'C30', (H, '''					let (proof, cache_ttl) = if let Ok(proof) = proof_res { proof } else {
						response = ("404 Not Found", "Failed to generate proof for given domain");
						break 'ret_err;
					};''', '''					let (proof, cache_ttl) = proof_res.unwrap_or((Vec::new(), 0));'''))
m('30-eq-once', '', (H, '''					let _ = socket.write_all(
						format!(''', '''					let mut out = (
						format!('''), (H, '''						).as_bytes()
					).await;
					let _ = socket.write_all(&proof).await;
''', '''						)
					).into_bytes();
					out.extend_from_slice(&proof);
					let _ = socket.write_all(&out).await;
'''))
m('30-eq-seq', '', (H, '''					let _ = socket.write_all(&proof).await;
					return;''', '''					if socket.write_all(&proof).await.is_ok() { let _ = socket.flush().await; }
					return;'''))
m('30-eq-iferr', '', (H, '''					let _ = socket.write_all(
						format!(''', '''					let head_res = socket.write_all(
						format!('''), (H, '''					let _ = socket.write_all(&proof).await;
					return;''', '''					if head_res.is_err() { return; }
					let _ = socket.write_all(&proof).await;
					return;'''))
m('30-eq-hdrs', '', (H, 'HTTP/1.1 200 OK\\r\\nContent-Length: {}\\r\\nContent-Type: application/octet-stream\\r\\n', 'HTTP/1.1 200 OK\\r\\nContent-Type: application/octet-stream\\r\\nContent-Length: {}\\r\\n'))
m('30-eq-verb', '', (H, '					if verb != "GET" { break; }\n					if http_vers', '					let is_get = verb == "GET";\n					if !is_get { break; }\n					if http_vers'))
m('30-eq-vers', '', (H, 'if http_vers != "HTTP/1.1" && http_vers != "HTTP/1.0" { break \'ret_err; }', 'match http_vers {\n						"HTTP/1.0" | "HTTP/1.1" => {},\n						_ => break \'ret_err,\n					}'))
m('30-eq-strip', '', (H, '''					if !path.starts_with(PATH_PFX) {
						response = ("404 Not Found", "Not Found");
						break 'ret_err;
					}
''', '''					let args = if let Some(args) = path.strip_prefix(PATH_PFX) { args } else {
						response = ("404 Not Found", "Not Found");
						break 'ret_err;
					};
'''), (H, 'for arg in path[PATH_PFX.len()..].split("&") {', 'for arg in args.split("&") {'))
m('30-eq-parts', '', (H, '''					if let Some(v) = parts.next() { verb = v; } else { break 'ret_err; }
					if let Some(p) = parts.next() { path = p; } else { break 'ret_err; }
					if let Some(v) = parts.next() { http_vers = v; } else { break 'ret_err; }
''', '''					match (parts.next(), parts.next(), parts.next()) {
						(Some(v), Some(p), Some(h)) => { verb = v; path = p; http_vers = h; },
						_ => break 'ret_err,
					}
'''))
m('30-eq-iflet', '', (H, '''			let mut socket = match listener.accept().await {
				Ok((socket, _)) => socket,
				// Failures (e.g. the client is already gone or we're out of file descriptors) aren't
				// permanent, so just try again.
				Err(_) => { tokio::task::yield_now().await; continue; },
			};''', '''			let mut socket = if let Ok((socket, _)) = listener.accept().await { socket } else {
				tokio::task::yield_now().await;
				continue;
			};'''))
m('30-eq-windows', '', (H, '''								for window in buf[..buf_pos].windows(2) {
									if window == b"\\r\\n" { break 'read_req; }
								}''', '''								if buf[..buf_pos].windows(2).any(|window| window == b"\\r\\n") { break 'read_req; }'''))
m('30-eq-handler', '', (H, '''			tokio::spawn(async move {
				let mut response''', '''			tokio::spawn(handle_connection(socket, resolver_sockaddr));
		}
	}

	async fn handle_connection(mut socket: tokio::net::TcpStream, resolver_sockaddr: SocketAddr) {
		{
			{
				let mut response'''), (H, '''				).as_bytes()).await;
			});
''', '''				).as_bytes()).await;
			}
'''), (H, '			let mut socket = match listener', '			let socket = match listener'))
m('30-eq-respond', '', (H, '''				let _ = socket.write_all(format!(
					"HTTP/1.1 {}\\r\\nContent-Length: {}\\r\\nContent-Type: text/plain\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n{}",
					response.0, response.1.len(), response.1,
				).as_bytes()).await;
''', '''				send_error(&mut socket, response.0, response.1).await;
'''), (H, '	pub(super) async fn run_server(', '''	async fn send_error(socket: &mut tokio::net::TcpStream, status: &str, body: &str) {
		let head = format!("HTTP/1.1 {}\\r\\nContent-Length: {}\\r\\nContent-Type: text/plain\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n", status, body.len());
		let _ = socket.write_all((head + body).as_bytes()).await;
	}

	pub(super) async fn run_server('''))
m('30-eq-direct', '', (H, '''						response = ("404 Not Found", "Failed to generate proof for given domain");
						break 'ret_err;
					};''', '''						let body = "Failed to generate proof for given domain";
						let _ = socket.write_all(format!(
							"HTTP/1.1 404 Not Found\\r\\nContent-Length: {}\\r\\nContent-Type: text/plain\\r\\n\\r\\n{}", body.len(), body
						).as_bytes()).await;
						return;
					};'''))
m('30-utf8panic', 'C30', (H, '''					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {
						if let''', '''					{
						let s = std::str::from_utf8(&buf[..buf_pos]).unwrap();
						if let'''), (H, '''							break 'ret_err;
						}
					} else {
						break 'ret_err;
					}
''', '''							break 'ret_err;
						}
					}
'''))
m('30-namepanic', 'C30', (H, '''if let Ok(domain) = Name::try_from(d) { domain } else {
						response.1 = "Failed to parse domain, make sure it ends with .";
						break 'ret_err;
					};''', '''Name::try_from(d).expect("valid names");'''))
m('30-proofpanic', 'C30', (H, '''if let Ok(proof) = proof_res { proof } else {
						response = ("404 Not Found", "Failed to generate proof for given domain");
						break 'ret_err;
					};''', '''proof_res.unwrap();'''))
m('30-errcont', 'C30', (H, 'Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},\n							Err(_) => return,', 'Err(_) => {},'))
m('30-eq-interrupted', '', (H, 'Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},', 'Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::Interrupted => {},'))
m('30-eq-noretry', '', (H, 'Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},\n', ''))
# ---- C34: the browser wrapper
_DOCLOOP = '''	for (idx, rr) in verified_rrs.verified_rrs.iter().enumerate() {
		write!(&mut resp, "{}{}", if idx != 0 { ", " } else { "" }, rr.json())
			.expect("Write to a String shouldn't fail");
	}'''
_DOCARGS = 'verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl)'
m('34-swap', 'C34', (W, _DOCARGS, 'verified_rrs.expires, verified_rrs.valid_from, verified_rrs.max_cache_ttl)'))
m('34-names', 'C34', (W, '\\"valid_from\\": {}, \\"expires\\": {}', '\\"expires\\": {}, \\"valid_from\\": {}'))
m('34-ttl', 'C34', (W, 'verified_rrs.expires, verified_rrs.max_cache_ttl)', 'verified_rrs.expires, verified_rrs.expires - verified_rrs.valid_from)'))
m('34-ttlmin', 'C34', (W, 'verified_rrs.expires, verified_rrs.max_cache_ttl)', 'verified_rrs.expires, verified_rrs.max_cache_ttl.min(3600))'))
m('34-skip1', 'C34', (W, 'verified_rrs.verified_rrs.iter().enumerate()', 'verified_rrs.verified_rrs.iter().skip(1).enumerate()'))
m('34-take', 'C34', (W, 'verified_rrs.verified_rrs.iter().enumerate()', 'verified_rrs.verified_rrs.iter().take(64).enumerate()'))
m('34-rev', 'C34', (W, 'verified_rrs.verified_rrs.iter().enumerate()', 'verified_rrs.verified_rrs.iter().rev().enumerate()'))
m('34-filter', 'C34', (W, 'verified_rrs.verified_rrs.iter().enumerate()', 'verified_rrs.verified_rrs.iter().filter(|rr| rr.ty() != 46).enumerate()'), (W, 'use dnssec_prover::ser', 'use dnssec_prover::rr::*;\nuse dnssec_prover::ser'))
m('34-break', 'C34', (W, _DOCLOOP, _DOCLOOP.replace('\t}', '\t\tif idx >= 31 { break; }\n\t}')))
m('34-unverified', 'C34', (W, 'verified_rrs.verified_rrs.iter().enumerate()', 'rrs.iter().enumerate()'))
m('34-novalid', 'C34', (W, '''	let verified_rrs = verify_rr_stream(&rrs)?;
''', '''	let verified_rrs = match verify_rr_stream(&rrs) {
		Ok(v) => v,
		Err(ValidationError::UnsupportedAlgorithm) => {
			let all: Vec<String> = rrs.iter().map(|r| r.json()).collect();
			return Ok(format!("{{\\"valid_from\\": 0, \\"expires\\": 0, \\"max_cache_ttl\\": 0, \\"verified_rrs\\": [{}]}}", all.join(", ")));
		},
		Err(e) => return Err(e),
	};
'''))
m('34-partial', 'C34', (W, 'parse_rr_stream(&stream)', 'parse_rr_stream(&stream[..stream.len().min(65535)])'))
m('34-trim', 'C34', (W, 'parse_rr_stream(&stream)', 'parse_rr_stream(&stream[if stream.first() == Some(&0) { 1 } else { 0 }..])'))
m('34-part', 'C34', (W, 'verify_rr_stream(&rrs)', 'verify_rr_stream(&rrs[..rrs.len().min(64)])'))
m('34-swallow', 'C34', (W, '''		Err(e) => format!("{{\\"error\\":\\"{:?}\\"}}", e),''', '''		Err(ValidationError::Invalid) => format!("{{\\"error\\":\\"{:?}\\"}}", ValidationError::Invalid),
		Err(_) => "{\\"valid_from\\": 0, \\"expires\\": 0, \\"max_cache_ttl\\": 0, \\"verified_rrs\\": []}".to_string(),'''))
m('34-empty', 'C34', (W, '''	let mut resp = String::new();
''', '''	if verified_rrs.verified_rrs.is_empty() { return Err(ValidationError::Invalid); }
	let mut resp = String::new();
'''))
m('34-expired', 'C34', (W, '''	let mut resp = String::new();
''', '''	if verified_rrs.max_cache_ttl == 0 { return Err(ValidationError::Invalid); }
	let mut resp = String::new();
'''))
m('34-addrec', 'C34', (W, '''	resp += "]}";
''', '''	if let Some(rr) = rrs.first() { resp += &rr.json(); }
	resp += "]}";
'''))
m('34-twice', 'C34', (W, 'if idx != 0 { ", " } else { "" }, rr.json())\n', 'if idx != 0 { ", " } else { "" }, rr.json())\n\t\t\t.and_then(|_| if idx == 63 { write!(&mut resp, ", {}", rr.json()) } else { Ok(()) })\n'))
m('34-nodot', 'C34', (W, "	if !name.ends_with('.') { name.push('.'); }\n", "	if !name.contains('.') { name.push('.'); }\n"))
m('34-dotalways', 'C34', (W, "	if !name.ends_with('.') { name.push('.'); }\n", "	if !name.is_empty() && !name.ends_with('.') { name.push('.'); } else if name.is_empty() { name.push_str(\"com.\"); }\n"))
m('34-trimname', 'C34', (W, "	if !name.ends_with('.') { name.push('.'); }\n", "	if name.starts_with('*') { name.remove(0); name.remove(0); }\n	if !name.ends_with('.') { name.push('.'); }\n"))
m('34-ty', 'C34', (W, 'ProofBuilder::new(&qname, ty)', 'ProofBuilder::new(&qname, ty as u8 as u16)'))
m('34-tyany', 'C34', (W, 'ProofBuilder::new(&qname, ty)', 'ProofBuilder::new(&qname, if ty == 255 { 16 } else { ty })'))
m('34-noinit', 'C34', (W, '		queries.push_back(initial_query);\n', '		if ty != 43 { queries.push_back(initial_query); }\n'))
m('34-noname', 'C34', (W, '	if let Ok(qname) = name.try_into() {', '	if name.len() > 128 { return None; }\n	if let Ok(qname) = name.try_into() {'))
m('34-off1', 'C34', (W, 'response.len() <= u16::MAX as usize', 'response.len() < u16::MAX as usize'))
m('34-udp', 'C34', (W, 'response.len() <= u16::MAX as usize', 'response.len() <= 4096'))
m('34-respcut', 'C34', (W, '''		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
		answer.copy_from_slice(&response);''', '''		let len = response.len().min(4096);
		let mut answer = QueryBuf::new_zeroed(len as u16);
		answer.copy_from_slice(&response[..len]);'''))
m('34-nocopy', 'C34', (W, '		answer.copy_from_slice(&response);\n', ''))
m('34-zerolen', 'C34', (W, 'response.len() <= u16::MAX as usize', 'response.len() > 12 && response.len() <= u16::MAX as usize'))
m('34-front', 'C34', (W, 'proof_builder.1.push_back(query)', 'proof_builder.1.push_front(query)'))
m('34-clear', 'C34', (W, '			for query in queries {', '			proof_builder.1.clear();\n			for query in queries {'))
m('34-dropq', 'C34', (W, '			for query in queries {', '			for query in queries.into_iter().take(2) {'))
m('34-skipq', 'C34', (W, '			for query in queries {', '			for query in queries.into_iter().skip(1) {'))
m('34-revq', 'C34', (W, '			for query in queries {', '			for query in queries.into_iter().rev() {'))
m('34-dedupq', 'C34', (W, 'proof_builder.1.push_back(query);', 'if !proof_builder.1.contains(&query) { proof_builder.1.push_back(query); }'))
m('34-capq', 'C34', (W, 'proof_builder.1.push_back(query);', 'if proof_builder.1.len() < 8 { proof_builder.1.push_back(query); }'))
m('34-firstq', 'C34', (W, '''			for query in queries {
				proof_builder.1.push_back(query);
			}''', '''			if let Some(query) = queries.into_iter().next() {
				proof_builder.1.push_back(query);
			}'''))
m('34-lastq', 'C34', (W, 'proof_builder.1.pop_front()', 'proof_builder.1.pop_back()'))
m('34-peek', 'C34', (W, '	if let Some(query) = proof_builder.1.pop_front() {\n		Some(query.into_vec())', '	if let Some(query) = proof_builder.1.front().cloned() {\n		Some(query.into_vec())'))
m('34-qcut', 'C34', (W, 'Some(query.into_vec())', 'Some(query.into_vec().into_iter().take(512).collect())'))
m('34-twopop', 'C34', (W, 'Some(query.into_vec())', '{ if query.is_empty() { proof_builder.1.pop_front(); } Some(query.into_vec()) }'))
m('34-awaitq', 'C34', (W, '	if let Some(query) = proof_builder.1.pop_front() {', '	if !proof_builder.0.awaiting_responses() { return None; }\n	if let Some(query) = proof_builder.1.pop_front() {'))
m('34-pending', 'C34', (W, '	proof_builder.0.finish_proof()', '	if !proof_builder.1.is_empty() { return None; }\n	proof_builder.0.finish_proof()'))
m('34-noproof', 'C34', (W, '.ok().map(|(proof, _ttl)| proof)', '.ok().map(|(proof, ttl)| if ttl == 0 { Vec::new() } else { proof })'))
m('34-ttlproof', 'C34', (W, '.ok().map(|(proof, _ttl)| proof)', '.ok().filter(|(_, ttl)| *ttl > 0).map(|(proof, _ttl)| proof)'))
m('34-emptyproof', 'C34', (W, '.ok().map(|(proof, _ttl)| proof)', '.map(|(proof, _ttl)| Some(proof)).unwrap_or(Some(Vec::new()))'))
m('34-trunc', 'C34', (W, '.ok().map(|(proof, _ttl)| proof)', '.ok().map(|(mut proof, _ttl)| { proof.truncate(65535); proof })'))
# the same behaviour written otherwise
m('34-eq-extend', '', (W, '''			for query in queries {
				proof_builder.1.push_back(query);
			}''', '			proof_builder.1.extend(queries);'))
m('34-eq-while', '', (W, '''			for query in queries {
				proof_builder.1.push_back(query);
			}''', '''			let mut queries = queries.into_iter();
			while let Some(query) = queries.next() {
				proof_builder.1.push_back(query);
			}'''))
m('34-eq-match', '', (W, '''	if let Some(query) = proof_builder.1.pop_front() {
		Some(query.into_vec())
	} else {
		None
	}''', '''	match proof_builder.1.pop_front() {
		None => None,
		Some(query) => Some(query.into_vec()),
	}'''))
m('34-eq-map', '', (W, '''	if let Some(query) = proof_builder.1.pop_front() {
		Some(query.into_vec())
	} else {
		None
	}''', '''	proof_builder.1.pop_front().map(|q| q.into_vec())'''))
m('34-eq-map2', '', (W, '''	if let Some(query) = proof_builder.1.pop_front() {
		Some(query.into_vec())
	} else {
		None
	}''', '''	proof_builder.1.pop_front().map(QueryBuf::into_vec)'''))
m('34-eq-q', '', (W, '''	if let Some(query) = proof_builder.1.pop_front() {
		Some(query.into_vec())
	} else {
		None
	}''', '''	let query = proof_builder.1.pop_front()?;
	Some(query.into_vec())'''))
m('34-eq-early', '', (W, '	if response.len() <= u16::MAX as usize {', '	if response.len() > u16::MAX as usize { return; }\n	{'))
m('34-eq-try', '', (W, '''	if response.len() <= u16::MAX as usize {
		let mut answer = QueryBuf::new_zeroed(response.len() as u16);''', '''	if let Ok(len) = u16::try_from(response.len()) {
		let mut answer = QueryBuf::new_zeroed(len);'''))
m('34-eq-matchresp', '', (W, '''		if let Ok(queries) = proof_builder.0.process_response(&answer) {
			for query in queries {
				proof_builder.1.push_back(query);
			}
		}''', '''		let WASMProofBuilder(builder, pending) = proof_builder;
		match builder.process_response(&answer) {
			Ok(queries) => queries.into_iter().for_each(|q| pending.push_back(q)),
			Err(_) => {},
		}'''))
m('34-eq-proofmatch', '', (W, '	proof_builder.0.finish_proof().ok().map(|(proof, _ttl)| proof)', '''	match proof_builder.0.finish_proof() {
		Ok((proof, _)) => Some(proof),
		Err(()) => None,
	}'''))
m('34-eq-prooflet', '', (W, '	proof_builder.0.finish_proof().ok().map(|(proof, _ttl)| proof)', '''	let (proof, _) = proof_builder.0.finish_proof().ok()?;
	Some(proof)'''))
m('34-eq-docmatch', '', (W, '''	let rrs = parse_rr_stream(&stream).map_err(|()| ValidationError::Invalid)?;
''', '''	let rrs = match parse_rr_stream(&stream) {
		Ok(rrs) => rrs,
		Err(()) => return Err(ValidationError::Invalid),
	};
'''))
m('34-eq-index', '', (W, _DOCLOOP, '''	for idx in 0..verified_rrs.verified_rrs.len() {
		if idx > 0 { resp.push_str(", "); }
		resp.push_str(&verified_rrs.verified_rrs[idx].json());
	}'''))
m('34-eq-first', '', (W, _DOCLOOP, '''	let mut first = true;
	for rr in verified_rrs.verified_rrs.iter() {
		if !first { resp += ", "; }
		first = false;
		resp += &rr.json();
	}'''))
m('34-eq-join', '', (W, _DOCLOOP, '''	resp += &verified_rrs.verified_rrs.iter().map(|rr| rr.json()).collect::<Vec<_>>().join(", ");'''))
m('34-eq-format', '', (W, '''	let mut resp = String::new();
	write!(&mut resp, "{}",
		format_args!("{{\\"valid_from\\": {}, \\"expires\\": {}, \\"max_cache_ttl\\": {}, \\"verified_rrs\\": [",
		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl)
	).expect("Write to a String shouldn't fail");
''', '''	let mut resp = format!("{{\\"valid_from\\": {}, \\"expires\\": {}, \\"max_cache_ttl\\": {}, \\"verified_rrs\\": [",
		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl);
'''))
m('34-eq-order', '', (W, '''"{{\\"valid_from\\": {}, \\"expires\\": {}, \\"max_cache_ttl\\": {}, \\"verified_rrs\\": [",
		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl)''', '''"{{\\"max_cache_ttl\\": {}, \\"valid_from\\": {}, \\"expires\\": {}, \\"verified_rrs\\": [",
		verified_rrs.max_cache_ttl, verified_rrs.valid_from, verified_rrs.expires)'''))
m('34-eq-helper', '', (W, _DOCLOOP, '''	append_rrs(&mut resp, &verified_rrs.verified_rrs);'''), (W, 'fn do_verify_byte_stream(', '''fn append_rrs(resp: &mut String, rrs: &[&dnssec_prover::rr::RR]) {
	for (idx, rr) in rrs.iter().enumerate() {
		if idx != 0 { resp.push_str(", "); }
		resp.push_str(&rr.json());
	}
}

fn do_verify_byte_stream('''))
m('34-eq-inline', '', (W, '''	match do_verify_byte_stream(stream) {
		Ok(r) => r,
		Err(e) => format!("{{\\"error\\":\\"{:?}\\"}}", e),
	}''', '''	do_verify_byte_stream(stream).unwrap_or_else(|e| format!("{{\\"error\\":\\"{:?}\\"}}", e))'''))
m('34-eq-endsfn', '', (W, "	if !name.ends_with('.') { name.push('.'); }\n", '	if !name.ends_with(".") { name += "."; }\n'))
m('34-eq-lastchar', '', (W, "	if !name.ends_with('.') { name.push('.'); }\n", "	if name.chars().last() != Some('.') { name.push('.'); }\n"))
m('34-eq-bytes', '', (W, "	if !name.ends_with('.') { name.push('.'); }\n", "	if name.as_bytes().last() != Some(&b'.') { name.push('.'); }\n"))
m('34-eq-initmatch', '', (W, '''	if let Ok(qname) = name.try_into() {
		let (builder, initial_query) = ProofBuilder::new(&qname, ty);
		let mut queries = VecDeque::with_capacity(4);
		queries.push_back(initial_query);
		Some(WASMProofBuilder(builder, queries))
	} else {
		None
	}''', '''	let qname = name.try_into().ok()?;
	let (builder, initial_query) = ProofBuilder::new(&qname, ty);
	Some(WASMProofBuilder(builder, core::iter::once(initial_query).collect()))'''))
m('34-eq-vecdeque', '', (W, '''		let mut queries = VecDeque::with_capacity(4);
		queries.push_back(initial_query);
''', '''		let queries = VecDeque::from(vec![initial_query]);
'''))
m('34-eq-vecdeque2', '', (W, '''		let mut queries = VecDeque::with_capacity(4);
		queries.push_back(initial_query);
''', '''		let queries = VecDeque::from([initial_query]);
'''))

# ------------------------------------------------------------ from the automated sweep
m('25-authbreak', 'C25', (Q, '''					continue;
				}
			},
			RR::NSec(_)''', '''					break;
				}
			},
			RR::NSec(_)'''))
m('25-authbreak2', 'C25', (Q, '			_ => continue,', '			_ => break,'))
m('25-qnameskip', 'C25', (Q, '		read_wire_packet_name(&mut read, resp)?;\n		read_u16(&mut read)?; // type', '		read_u16(&mut read)?; // type'))
m('25-qnameerr', 'C25', (Q, '		read_wire_packet_name(&mut read, resp)?;\n', '		let _ = read_wire_packet_name(&mut read, resp);\n'))
m('25-eq-while', '', (Q, '''	for _ in 0..authorities {
''', '''	let mut left = authorities;
	while left > 0 {
		left -= 1;
'''))
m('25-eq-noloop', '', (Q, '''	for _ in 0..questions {
		read_wire_packet_name(&mut read, resp)?;
		read_u16(&mut read)?; // type
		read_u16(&mut read)?; // class
	}
''', '''	read_wire_packet_name(&mut read, resp)?;
	let _ty = read_u16(&mut read)?;
	let _class = read_u16(&mut read)?;
'''))
m('25-eq-loopbreak', '', (Q, '''	for _ in 0..answers {
		let (rr, ttl)''', '''	let mut got = 0;
	loop {
		if got == answers { break; }
		got += 1;
		let (rr, ttl)'''))
m('25-eq-match', '', (Q, '''		match &rr {
			RR::RRSig(rrsig) => {
				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {
					continue;
				}
			},
			RR::NSec(_)|RR::NSec3(_) => {},
			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}

	Ok''', '''		let wanted = match &rr {
			RR::RRSig(rrsig) => rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE,
			RR::NSec(_)|RR::NSec3(_) => true,
			_ => false,
		};
		if wanted {
			write_rr(&rr, ttl, proof);
			min_ttl = cmp::min(min_ttl, ttl);
			if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
		}
	}

	Ok'''))
m('20-ptr192', 'C20', (S, 'len >= 0xc0 && recursion_limit > 0', 'len > 0xc0 && recursion_limit > 0'))
m('20-ptrerr', 'C20', (S, '			do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1)?;', '			let _ = do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1);'))
m('20-label63', 'C20', (S, '		if inp.len() <= len { return Err(()); }', '		if len > 62 || inp.len() <= len { return Err(()); }'))
m('20-label1', 'C20', (S, '		if inp.len() <= len { return Err(()); }', '		if len == 1 || inp.len() <= len { return Err(()); }'))
m('20-eq-63', '', (S, '		if inp.len() <= len { return Err(()); }', '		if len > 63 || inp.len() <= len { return Err(()); }'))
m('20-eq-ptrmatch', '', (S, '			do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1)?;\n			break;', '			return do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1);'))
m('14-depth', 'C14', (S, 'len >= 0xc0 && recursion_limit > 0', 'len >= 0xc0 && recursion_limit >= 0'))
m('14-depth2', '', (S, 'len >= 0xc0 && recursion_limit > 0', 'len >= 0xc0 && recursion_limit != 1'))
m('21-window31', 'C21', (S, 'if len > 32 { return Err(()); }', 'if len > 31 { return Err(()); }'))
m('21-window0', 'C21', (S, 'if len > 32 { return Err(()); }', 'if len > 32 || block == 255 { return Err(()); }'))
m('21-end', 'C21', (S, '	while !inp.is_empty() {\n		let block', '	while inp.len() > 2 {\n		let block'))
m('21-eq-len0', '', (S, 'if len > 32 { return Err(()); }', 'if len == 0 || len > 32 { return Err(()); }'))
m('16-aaaanever', 'C16', (R, 'if data.len() != 16 { return Err(()); }', 'if data.len() != 17 { return Err(()); }'))
m('16-nstrail', 'C16', (R, '''name_server: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() { return Err(()); }''', '''name_server: read_wire_packet_name(&mut data, wire_packet)? };'''))
m('16-dnametrail', 'C16', (R, '''delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() { return Err(()); }''', '''delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
		if data.len() > 1 { return Err(()); }'''))
m('16-eq-trail', '', (R, '''delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() { return Err(()); }
		Ok(res)''', '''delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
		match data.len() {
			0 => Ok(res),
			_ => Err(()),
		}'''))
m('30-bufpos', 'C30', (H, 'let mut buf_pos = 0;', 'let mut buf_pos = 1;'))
m('30-bufadv', 'C30', (H, '								buf_pos += len;', '								buf_pos += 1;'))
m('30-bufskip', 'C30', (H, 'std::str::from_utf8(&buf[..buf_pos])', 'std::str::from_utf8(&buf[1..buf_pos])'))
m('34-alwaysdot', 'C34', (W, "if !name.ends_with('.') { name.push('.'); }", "name.push('.');"))
m('34-oversize2', 'C34', (W, 'if response.len() <= u16::MAX as usize {', 'if !response.is_empty() {'))
m('37-proto', 'C37', (V, 'if dnskey.protocol != 3 { continue; }', 'if dnskey.protocol != 3 { break; }'))
m('37-protoerr', 'C37', (V, 'if dnskey.protocol != 3 { continue; }', 'if dnskey.protocol != 3 { return Err(ValidationError::Invalid); }'))
m('37-flag', 'C37', (V, 'if dnskey.flags & 0b1_0000_0000 == 0 { continue; }', 'if dnskey.flags & 0b1_0000_0000 == 0 { break; }'))
m('37-alg', 'C37', (V, 'if dnskey.alg != sig.alg { continue; }', 'if dnskey.alg != sig.alg { return Err(ValidationError::Invalid); }'))
m('37-algu', 'C37', (V, 'if dnskey.alg != sig.alg { continue; }', 'if dnskey.alg != sig.alg { return Err(ValidationError::UnsupportedAlgorithm); }'))
m('37-tag', 'C37', (V, '	for dnskey in dnskeys.into_iter() {\n		if dnskey.key_tag() == sig.key_tag {', '	for dnskey in dnskeys.into_iter() {\n		if dnskey.key_tag() != sig.key_tag { break; }\n		{'))
m('37-dsalg', 'C37', (V, 'if ds.alg != dnskey.alg { continue; }', 'if ds.alg != dnskey.alg { break; }'))
m('37-dstype', 'C37', (V, '					_ => continue,\n				};\n				write_name(&mut ctx', '					_ => break,\n				};\n				write_name(&mut ctx'))
m('37-digest', 'C37', (V, '''				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
					break;
				}''', '''				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
				}
				break;'''))
m('37-unsup', 'C37', (V, '				found_unsupported_alg = true;\n			},', '				found_unsupported_alg = true;\n				break;\n			},'))
m('37-unsupstream', 'C37', (V, 'Err(ValidationError::UnsupportedAlgorithm) => continue,', 'Err(ValidationError::UnsupportedAlgorithm) => break,'))
m('37-unsuperr', 'C37', (V, 'Err(ValidationError::UnsupportedAlgorithm) => continue,', 'Err(e @ ValidationError::UnsupportedAlgorithm) => return Err(e),'))
m('37-nsec', 'C37', (V, '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search''', '''				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
			if nsec_ord(&nsec.name, &name) == Ordering::Greater { break; }
		}
		let nsec3_search'''))
m('37-iters', 'C37', (V, "				// length, but we just use 2500 for all key types\n				continue;", "				// length, but we just use 2500 for all key types\n				break;"))
m('37-optout', 'C37', (V, "				// it as proof that some record doesn't exist.\n				continue;", "				// it as proof that some record doesn't exist.\n				break;"))
m('37-optouterr', 'C37', (V, "				// it as proof that some record doesn't exist.\n				continue;", "				// it as proof that some record doesn't exist.\n				return Err(ValidationError::Invalid);"))
m('37-b32', 'C37', (V, '				start_hash\n			} else { continue };', '				start_hash\n			} else { break };'))
m('37-hlen', 'C37', (V, 'if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }', 'if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { break; }'))
m('37-nohash', 'C37', (V, '				hash\n			} else { continue };', '				hash\n			} else { break };'))
m('37-takewhile', 'C37', (V, '''			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)''', '''			.take_while(move |rrsig| rrsig.key_name.as_str() == zone).filter(move |rrsig| rrsig.ty != DnsKey::TYPE)'''))
m('37-mapwhile', 'C37', (V, '''		let nsec_search = denial_records.iter()
			.filter(|(_, signer)| *signer == zone)
			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });''', '''		let nsec_search = denial_records.iter()
			.filter(|(_, signer)| *signer == zone)
			.map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None }).take_while(|n| n.is_some()).map(|n| n.unwrap());'''))
m('37-mapwhile3', 'C37', (V, '''		let nsec3_search = denial_records.iter()
			.filter(|(_, signer)| *signer == zone)
''', '''		let nsec3_search = denial_records.iter()
			.skip_while(|(_, signer)| *signer != zone)
			.take_while(|(_, signer)| *signer == zone)
'''))
m('37-eq-found', '', (V, '''				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
					break;
				}''', '''				let found = hash.as_ref() == &ds.digest;
				if !found { continue; }
				validated_dnskeys.push(*dnskey);
				break;'''))
m('37-eq-any', '', (V, '''	for ds in dses.clone() {
		had_ds = true;
		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
			had_known_digest_type = true;
			break;
		}
	}''', '''	if dses.clone().next().is_some() { had_ds = true; }
	if dses.clone().any(|ds| matches!(ds.digest_type, 1 | 2 | 4)) { had_known_digest_type = true; }'''))
m('37-eq-sha1loop', '', (V, '''		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);''', '''		let mut trust_sha1 = true;
		for ds in dses.clone() {
			if ds.digest_type == 1 { continue; }
			if ds.digest_type == 2 || ds.digest_type == 4 { trust_sha1 = false; break; }
		}'''))
m('38-skip', 'C38', (R, 'for c in self.digest.iter() {', 'for c in self.digest.iter().skip(1) {'))
m('38-rev', 'C38', (R, 'for c in self.signature.iter() {', 'for c in self.signature.iter().rev() {'))
m('38-take', 'C38', (R, 'for c in self.pubkey.iter() {', 'for c in self.pubkey.iter().take(64) {'))
m('38-swap', 'C38', (R, 'self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0', 'self.ty, self.alg, self.labels, self.orig_ttl, self.inception, self.expiration, self.key_tag, self.key_name.0'))
m('38-alg', 'C38', (R, 'self.name.0, self.key_tag, self.alg, self.digest_type\n', 'self.name.0, self.key_tag, self.digest_type, self.alg\n'))
m('38-nohex', 'C38', (R, '''		for c in self.digest.iter() {
			write!(&mut out, "{:02X}", c)''', '''		for c in self.digest.iter() {
			write!(&mut out, "{:X}", c)'''))
m('38-padhex', 'C38', (R, '''		for c in self.signature.iter() {
			write!(&mut out, "{:02X}", c)''', '''		for c in self.signature.iter() {
			write!(&mut out, "{:2X}", c)'''))
m('38-salt', 'C38', (R, '&self.salt[..], &self.next_name_hash[..]\n', '&self.next_name_hash[..], &self.next_name_hash[..]\n'))
m('38-owner', 'C38', (R, 'self.name.0, self.name_server.0)', 'self.name_server.0, self.name.0)'))
m('38-next', 'C38', (R, 'self.name.0, self.next_name.0,', 'self.next_name.0, self.name.0,'))
m('38-dropzero', 'C38', (R, 'for c in self.pubkey.iter() {', 'for c in self.pubkey.iter().filter(|b| **b != 0) {'))
m('38-dname', 'C38', (R, 'self.name.0, self.delegation_name.0)', 'self.delegation_name.0, self.delegation_name.0)'))
m('38-aslice', 'C38', (R, '"{{\\"type\\":\\"aaaa\\",\\"name\\":\\"{}\\",\\"address\\":{:?}}}", self.name.0, self.address)', '"{{\\"type\\":\\"aaaa\\",\\"name\\":\\"{}\\",\\"address\\":{:?}}}", self.name.0, &self.address[..8])'))
m('38-eq-lower', '', (R, '''		for c in self.digest.iter() {
			write!(&mut out, "{:02X}", c)
				.expect("Write to a String shouldn't fail");
		}''', '''		for i in 0..self.digest.len() {
			out += &format!("{:02X}", self.digest[i]);
		}'''))
m('38-eq-helper', '', (R, '''		for c in self.digest.iter() {
			write!(&mut out, "{:02X}", c)
				.expect("Write to a String shouldn't fail");
		}
		out += "\\"}";
		out''', '''		self.digest.iter().for_each(|c| write!(&mut out, "{:02X}", c).expect("Write to a String shouldn't fail"));
		out.push_str("\\"}");
		out'''))
m('38-eq-nibbles', '', (R, '''		for c in self.pubkey.iter() {
			write!(&mut out, "{:02X}", c)
				.expect("Write to a String shouldn't fail");
		}''', '''		for c in self.pubkey.iter() {
			write!(&mut out, "{:X}{:X}", c >> 4, c & 15)
				.expect("Write to a String shouldn't fail");
		}'''))
m('26-finish10', 'C26', (Q, 'if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {', 'if self.pending_queries > 0 || self.queries_made >= MAX_REQUESTS {'))
m('26-await10', 'C26', (Q, 'self.pending_queries > 0 && self.queries_made <= MAX_REQUESTS', 'self.pending_queries > 0 && self.queries_made < MAX_REQUESTS'))
m('26-awaitall', 'C26', (Q, 'self.pending_queries > 0 && self.queries_made <= MAX_REQUESTS', 'self.pending_queries > 0'))
m('26-hand10', 'C26', (Q, '		if self.queries_made <= MAX_REQUESTS {\n			Ok(new_queries)', '		if self.queries_made < MAX_REQUESTS {\n			Ok(new_queries)'))
m('26-eq-await', '', (Q, 'self.pending_queries > 0 && self.queries_made <= MAX_REQUESTS', '!(self.pending_queries == 0 || self.queries_made > MAX_REQUESTS)'))
m('26-eq-hand', '', (Q, '''		if self.queries_made <= MAX_REQUESTS {
			Ok(new_queries)
		} else {
			Ok(Vec::new())
		}''', '''		if self.queries_made > MAX_REQUESTS { new_queries.clear(); }
		Ok(new_queries)'''))
m('26-eq-finish', '', (Q, '''		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {
			Err(())
		} else {
			Ok((self.proof, self.min_ttl))
		}''', '''		match (self.pending_queries, self.queries_made) {
			(0, 0..=MAX_REQUESTS) => Ok((self.proof, self.min_ttl)),
			_ => Err(()),
		}'''))
# ---- C39
PUSH = "if !res.contains(&record) { res.push(record); }"
m('39-empty', 'C39', (V, "	if res.is_empty() { return Err(ValidationError::Invalid) }\n", ""))
m('39-dup', 'C39', (V, PUSH, "res.push(record);"))
m('39-byname', 'C39', (V, PUSH, "if !res.iter().any(|r: &&RR| r.name() == record.name() && r.ty() == record.ty()) { res.push(record); }"))
m('39-one', 'C39', (V, PUSH, PUSH + "\n						break;"))
m('39-dupbreak', 'C39', (V, PUSH, "if res.contains(&record) { break; }\n						res.push(record);"))
m('39-take', 'C39', (V, "for record in signed_records {", "for record in signed_records.take(1) {"))
m('39-sigbreak', 'C39', (V, PUSH + "\n					}", PUSH + "\n					}\n					if rrsig.ty == crate::rr::A::TYPE { break; }"))
m('39-sigskip', 'C39', (V, "for rrsig in inp.iter()\n			.filter_map", "for rrsig in inp.iter().skip(1)\n			.filter_map"))
m('39-sigtype', 'C39', (V, "zone && rrsig.ty != DnsKey::TYPE)", "zone && rrsig.ty != DnsKey::TYPE && rrsig.ty != crate::rr::DName::TYPE)"))
m('39-siglabels', 'C39', (V, "			if !name_in_zone(&rrsig.name, zone) {", "			if rrsig.labels == 0 { continue; }\n			if !name_in_zone(&rrsig.name, zone) {"))
m('39-siglabels2', 'C39', (V, "zone && rrsig.ty != DnsKey::TYPE)", "zone && rrsig.ty != DnsKey::TYPE && rrsig.labels != 0)"))
m('39-deep', 'C39', (V, "if !seen_zones.contains(&rrsig.name.as_str()) {", "if rrsig.labels < 6 && !seen_zones.contains(&rrsig.name.as_str()) {"))
m('39-walkend', 'C39', (V, "if pending_ds_sets.is_empty() { break 'next_zone; }", "if pending_ds_sets.is_empty() || !res.is_empty() { break 'next_zone; }"))
m('39-retain', 'C39', (V, "res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);", "res.retain(|rr| rr.ty() < NSec::TYPE);"))
m('39-retain2', 'C39', (V, "res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);", "res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE && rr.ty() != crate::rr::DName::TYPE);"))
m('39-wild', 'C39', (V, "					for record in signed_records {", "					if rrsig.labels == 0 && rrsig.ty != NSec::TYPE { continue; }\n					for record in signed_records {"))
m('39-unsupbreak', 'C37 C39', (V, "Err(ValidationError::UnsupportedAlgorithm) => continue,", "Err(ValidationError::UnsupportedAlgorithm) => break,"))
m('39-eq-any', '', (V, PUSH, "if !res.iter().any(|r: &&'a RR| *r == record) { res.push(record); }"))
m('39-eq-len', '', (V, "	if res.is_empty() { return Err(ValidationError::Invalid) }\n", "	if res.len() < 1 { return Err(ValidationError::Invalid) }\n"))
m('39-eq-first', '', (V, "	if res.is_empty() { return Err(ValidationError::Invalid) }\n", "	if res.first().is_none() { return Err(ValidationError::Invalid) }\n"))
m('39-eq-flag', '', (V, "	let mut res = Vec::new();\n	let mut rrs_n", "	let mut res = Vec::new();\n	let mut found = false;\n	let mut rrs_n"), (V, PUSH, "found = true;\n						" + PUSH), (V, "	if res.is_empty() { return", "	if !found { return"))
m('39-eq-cont', '', (V, PUSH, "if res.contains(&record) { continue; }\n						res.push(record);"))
m('39-eq-denial', '', (V, PUSH, "else if !res.contains(&record) { res.push(record); }"), (V, "	res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);\n", ""), (V, "	if res.is_empty() { return Err(ValidationError::Invalid) }\n", "	if res.is_empty() && denial_records.is_empty() { return Err(ValidationError::Invalid) }\n"))
m('39-eq-coll', '', (V, "					for record in signed_records {", "					let signed: Vec<&'a RR> = signed_records.collect();\n					for record in signed {"))
m('39-eq-sigvec', '', (V, "		for rrsig in inp.iter()\n			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })\n			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)\n		{\n", "		for rr in inp {\n			let rrsig = if let RR::RRSig(sig) = rr { sig } else { continue };\n			if rrsig.key_name.as_str() != zone { continue; }\n			if rrsig.ty == DnsKey::TYPE { continue; }\n"))
m('39-eq-loop', '', (V, "	'next_zone: while zone == \".\" || !pending_ds_sets.is_empty() {", "	'next_zone: loop {"))
m('39-eq-collect', '', (V, "	res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);\n", "	let res: Vec<&'a RR> = res.into_iter().filter(|rr| !matches!(rr, RR::NSec(_) | RR::NSec3(_))).collect();\n"))
m('29-swapdt', 'C29', (H, 'if k == "d" {', 'if k == "t" {'), (H, '} else if k == "t" {', '} else if k == "d" {'))
m('30-endswith', 'C30', (H, 'if !path.starts_with(PATH_PFX) {', 'if !path.ends_with(PATH_PFX) {'))
m('30-partial', 'C30', (H, 'if window == b"\\r\\n" { break \'read_req; }', 'if window != b"\\r\\n" { break \'read_req; }'))
m('30-eq-anywin', '', (H, '''								for window in buf[..buf_pos].windows(2) {
									if window == b"\\r\\n" { break 'read_req; }
								}
''', '''								if buf[..buf_pos].windows(2).any(|w| w == b"\\r\\n") { break 'read_req; }
'''))
m('30-eq-lasttwo', '', (H, 'for window in buf[..buf_pos].windows(2) {', 'for window in buf[0..buf_pos].windows(b"\\r\\n".len()) {'))
m('37-dupparams', 'C37', (V, "				.any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)\n			{ continue; }", "				.any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)\n			{ break; }"))
m('37-onepair', 'C37', (V, "if nsec3params_to_name_hash.len() >= 2 {", "if nsec3params_to_name_hash.len() >= 1 {"))
m('37-skip1', 'C37', (V, "let nsec3_search = denial_records.iter()", "let nsec3_search = denial_records.iter().skip(1)"))
m('37-eq-headlen', '', (V, "			if nsec3.hash_algo != 1 { continue; }\n			if nsec3params_to_name_hash.iter()", "			if nsec3.hash_algo != 1 { continue; }\n			if nsec3params_to_name_hash.len() == 2 { break; }\n			if nsec3params_to_name_hash.iter()"), (V, """
			if nsec3params_to_name_hash.len() >= 2 {
				// We only allow for up to two sets of hash_iterations/salt per zone. Beyond that
				// we assume this is a malicious DoSing proof and give up.
				break;
			}
""", ""))
m('07-break', 'C07', (V, "				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n				continue 'proof_search_loop;\n			}\n		}\n		return", "				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n				break 'proof_search_loop;\n			}\n		}\n		return"))

# ---- larger rewrites: helpers taken out, loops turned into iterator chains and back, statements in another order
m('eq2-signeddata', '', (V, '''			let mut signed_data = Vec::with_capacity(2048);
			signed_data.extend_from_slice(&sig.ty.to_be_bytes());
			signed_data.extend_from_slice(&sig.alg.to_be_bytes());
			signed_data.extend_from_slice(&sig.labels.to_be_bytes());
			signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());
			signed_data.extend_from_slice(&sig.expiration.to_be_bytes());
			signed_data.extend_from_slice(&sig.inception.to_be_bytes());
			signed_data.extend_from_slice(&sig.key_tag.to_be_bytes());
			write_name(&mut signed_data, &sig.key_name);
''', '''			let mut signed_data = Vec::with_capacity(2048);
			write_rrsig_prefix(&mut signed_data, sig);
'''), (V, 'fn verify_rrsig<', '''fn write_rrsig_prefix(out: &mut Vec<u8>, sig: &RRSig) {
	out.extend_from_slice(&sig.ty.to_be_bytes());
	out.extend_from_slice(&sig.alg.to_be_bytes());
	out.extend_from_slice(&sig.labels.to_be_bytes());
	out.extend_from_slice(&sig.orig_ttl.to_be_bytes());
	out.extend_from_slice(&sig.expiration.to_be_bytes());
	out.extend_from_slice(&sig.inception.to_be_bytes());
	out.extend_from_slice(&sig.key_tag.to_be_bytes());
	write_name(out, &sig.key_name);
}

fn verify_rrsig<'''))
m('eq2-signrec', '', (V, '''			for record in records.iter() {
				let record_labels = record.name().labels() as usize;
				let labels = sig.labels.into();
				// For NSec types, the name should already match the wildcard, so we don't do any
				// filtering here. This is relied upon in `verify_rr_stream` to check whether an
				// NSec record is matching via wildcard (as otherwise we'd allow a resolver to
				// change the name out from under us and change the wildcard to something else).
				if record.ty() != NSec::TYPE && record_labels != labels {
					if record_labels < labels { return Err(ValidationError::Invalid); }
					let signed_name = record.name().trailing_n_labels(sig.labels);
					debug_assert!(signed_name.is_some());
					if let Some(name) = signed_name {
						signed_data.extend_from_slice(b"\\x01*");
						write_name(&mut signed_data, name);
					} else { return Err(ValidationError::Invalid); }
				} else {
					write_name(&mut signed_data, record.name());
				}
				signed_data.extend_from_slice(&record.ty().to_be_bytes());
				signed_data.extend_from_slice(&1u16.to_be_bytes()); // The INternet class
				signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());
				record.write_u16_len_prefixed_data(&mut signed_data);
			}
''', '''			for record in records.iter() {
				write_signed_record(&mut signed_data, sig, *record)?;
			}
'''), (V, 'fn verify_rrsig<', '''fn write_signed_record<RR: Record>(out: &mut Vec<u8>, sig: &RRSig, record: &RR) -> Result<(), ValidationError> {
	let name_labels = record.name().labels();
	if record.ty() == NSec::TYPE || name_labels == sig.labels {
		write_name(out, record.name());
	} else if let Some(name) = record.name().trailing_n_labels(sig.labels) {
		out.extend_from_slice(b"\\x01*");
		write_name(out, name);
	} else {
		return Err(ValidationError::Invalid);
	}
	out.extend_from_slice(&record.ty().to_be_bytes());
	out.extend_from_slice(&1u16.to_be_bytes());
	out.extend_from_slice(&sig.orig_ttl.to_be_bytes());
	record.write_u16_len_prefixed_data(out);
	Ok(())
}

fn verify_rrsig<'''))
m('eq2-crypt', '', (V, '''			let sig_validation = match sig.alg {
				8|10 => {
					let alg = if sig.alg == 8 {
						&signature::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY
					} else {
						&signature::RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY
					};
					bytes_to_rsa_pk(&dnskey.pubkey).map_err(|_| ValidationError::Invalid)?
						.verify(alg, &signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)
				},
				13|14 => {
					let alg = if sig.alg == 13 {
						&signature::ECDSA_P256_SHA256_FIXED
					} else {
						&signature::ECDSA_P384_SHA384_FIXED
					};

					// Add 0x4 identifier to the ECDSA pubkey as expected by ring.
					let mut key = Vec::with_capacity(dnskey.pubkey.len() + 1);
					key.push(0x4);
					key.extend_from_slice(&dnskey.pubkey);

					signature::UnparsedPublicKey::new(alg, &key)
						.verify(&signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)
				},
				15 => {
					signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)
						.verify(&signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)
				},
				_ => return Err(ValidationError::UnsupportedAlgorithm),
			};
''', '''			let sig_validation = check_signature(sig, &dnskey.pubkey, &signed_data);
'''), (V, 'fn verify_rrsig<', '''fn check_signature(sig: &RRSig, pubkey: &[u8], data: &[u8]) -> Result<(), ValidationError> {
	let res = match sig.alg {
		8 => bytes_to_rsa_pk(pubkey).map_err(|_| ValidationError::Invalid)?
			.verify(&signature::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY, data, &sig.signature),
		10 => bytes_to_rsa_pk(pubkey).map_err(|_| ValidationError::Invalid)?
			.verify(&signature::RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY, data, &sig.signature),
		13 => signature::UnparsedPublicKey::new(&signature::ECDSA_P256_SHA256_FIXED, ec_point(pubkey))
			.verify(data, &sig.signature),
		14 => signature::UnparsedPublicKey::new(&signature::ECDSA_P384_SHA384_FIXED, ec_point(pubkey))
			.verify(data, &sig.signature),
		15 => signature::UnparsedPublicKey::new(&signature::ED25519, pubkey).verify(data, &sig.signature),
		_ => return Err(ValidationError::UnsupportedAlgorithm),
	};
	res.map_err(|_| ValidationError::Invalid)
}

fn ec_point(pubkey: &[u8]) -> Vec<u8> {
	let mut key = Vec::with_capacity(pubkey.len() + 1);
	key.push(4);
	key.extend_from_slice(pubkey);
	key
}

fn verify_rrsig<'''))
m('eq2-keyfind', '', (V, '''	for dnskey in dnskeys.into_iter() {
		if dnskey.key_tag() == sig.key_tag {
			// Protocol must be 3, otherwise its not DNSSEC
			if dnskey.protocol != 3 { continue; }
			// The ZONE flag must be set if we're going to validate RRs with this key.
			if dnskey.flags & 0b1_0000_0000 == 0 { continue; }
			if dnskey.alg != sig.alg { continue; }
''', '''	for dnskey in dnskeys.into_iter().filter(|k| may_sign(k, sig)) {
		{
'''), (V, 'fn verify_rrsig<', '''fn may_sign(dnskey: &DnsKey, sig: &RRSig) -> bool {
	let is_zone_key = dnskey.protocol == 3 && dnskey.flags & 0x100 != 0;
	is_zone_key && dnskey.alg == sig.alg && dnskey.key_tag() == sig.key_tag
}

fn verify_rrsig<'''))
m('eq2-rsapk', '', (V, '''	if pubkey.len() <= pos + exponent_length { return Err(()); }
	Ok(signature::RsaPublicKeyComponents {
		n: &pubkey[pos + exponent_length..],
		e: &pubkey[pos..pos + exponent_length]
	})''', '''	let rest = pubkey.get(pos..).ok_or(())?;
	if rest.len() <= exponent_length { return Err(()); }
	let (e, n) = rest.split_at(exponent_length);
	Ok(signature::RsaPublicKeyComponents { n, e })'''))
m('eq2-dsmatch', '', (V, '''		for ds in dses.clone() {
			if ds.alg != dnskey.alg { continue; }
			if dnskey.key_tag() == ds.key_tag {
				let mut ctx = match ds.digest_type {
					1 if trust_sha1 => crypto::hash::Hasher::sha1(),
					2 => crypto::hash::Hasher::sha256(),
					// TODO: 4 => crypto::hash::Hasher::sha384(),
					_ => continue,
				};
				write_name(&mut ctx, &dnskey.name);
				ctx.update(&dnskey.flags.to_be_bytes());
				ctx.update(&dnskey.protocol.to_be_bytes());
				ctx.update(&dnskey.alg.to_be_bytes());
				ctx.update(&dnskey.pubkey);
				let hash = ctx.finish();
				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
					break;
				}
			}
		}
''', '''		if dses.clone().any(|ds| ds_matches(ds, dnskey, trust_sha1)) {
			validated_dnskeys.push(*dnskey);
		}
'''), (V, '/// Verify [`RRSig`]s over [`DnsKey`], returning', '''fn ds_matches(ds: &DS, dnskey: &DnsKey, trust_sha1: bool) -> bool {
	if ds.alg != dnskey.alg || ds.key_tag != dnskey.key_tag() { return false; }
	let mut ctx = match ds.digest_type {
		1 if trust_sha1 => crypto::hash::Hasher::sha1(),
		2 => crypto::hash::Hasher::sha256(),
		_ => return false,
	};
	write_name(&mut ctx, &dnskey.name);
	ctx.update(&dnskey.flags.to_be_bytes());
	ctx.update(&[dnskey.protocol, dnskey.alg]);
	ctx.update(&dnskey.pubkey);
	ctx.finish().as_ref() == &ds.digest[..]
}

/// Verify [`RRSig`]s over [`DnsKey`], returning'''))
m('eq2-dsscan', '', (V, '''	let mut had_known_digest_type = false;
	let mut had_ds = false;
	for ds in dses.clone() {
		had_ds = true;
		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
			had_known_digest_type = true;
			break;
		}
	}
	if !had_ds { return Err(ValidationError::Invalid); }
	if !had_known_digest_type { return Err(ValidationError::UnsupportedAlgorithm); }
''', '''	if dses.clone().next().is_none() { return Err(ValidationError::Invalid); }
	if !dses.clone().any(|ds| matches!(ds.digest_type, 1|2|4)) {
		return Err(ValidationError::UnsupportedAlgorithm);
	}
'''))
m('eq2-sha1out', '', (V, '''	for dnskey in records.iter() {
		// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
''', '''	// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
	let trust_sha1 = !dses.clone().any(|ds| ds.digest_type == 2 || ds.digest_type == 4);
	for dnskey in records.iter() {
'''))
m('eq2-keysfilter', '', (V, '''	let mut validated_dnskeys = Vec::with_capacity(records.len());
''', ''), (V, '''	for dnskey in records.iter() {
		// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
		for ds in dses.clone() {
			if ds.alg != dnskey.alg { continue; }
			if dnskey.key_tag() == ds.key_tag {
				let mut ctx = match ds.digest_type {
					1 if trust_sha1 => crypto::hash::Hasher::sha1(),
					2 => crypto::hash::Hasher::sha256(),
					// TODO: 4 => crypto::hash::Hasher::sha384(),
					_ => continue,
				};
				write_name(&mut ctx, &dnskey.name);
				ctx.update(&dnskey.flags.to_be_bytes());
				ctx.update(&dnskey.protocol.to_be_bytes());
				ctx.update(&dnskey.alg.to_be_bytes());
				ctx.update(&dnskey.pubkey);
				let hash = ctx.finish();
				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
					break;
				}
			}
		}
	}
''', '''	let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
	let validated_dnskeys: Vec<&DnsKey> = records.iter().copied().filter(|dnskey| {
		dses.clone().any(|ds| {
			if ds.alg != dnskey.alg || dnskey.key_tag() != ds.key_tag { return false; }
			let mut ctx = match ds.digest_type {
				1 if trust_sha1 => crypto::hash::Hasher::sha1(),
				2 => crypto::hash::Hasher::sha256(),
				_ => return false,
			};
			write_name(&mut ctx, &dnskey.name);
			ctx.update(&dnskey.flags.to_be_bytes());
			ctx.update(&dnskey.protocol.to_be_bytes());
			ctx.update(&dnskey.alg.to_be_bytes());
			ctx.update(&dnskey.pubkey);
			ctx.finish().as_ref() == &ds.digest
		})
	}).collect();
'''))
m('eq2-sigsres', '', (V, '''	let mut found_unsupported_alg = false;
	for sig in sigs {
		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
			Ok(()) => return Ok(sig),
			Err(ValidationError::UnsupportedAlgorithm) => {
				// There may be redundant signatures by different keys, where one we don't
				// supprt and another we do. Ignore ones we don't support, but if there are
				// no more, return UnsupportedAlgorithm
				found_unsupported_alg = true;
			},
			Err(ValidationError::Invalid) => {
				// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
				return Err(ValidationError::Invalid);
			},
		}
	}

	if found_unsupported_alg {
		Err(ValidationError::UnsupportedAlgorithm)
	} else {
		Err(ValidationError::Invalid)
	}
''', '''	let mut failure = ValidationError::Invalid;
	for sig in sigs {
		match verify_rrsig(sig, validated_dnskeys.iter().copied(), records.clone()) {
			Ok(()) => return Ok(sig),
			Err(ValidationError::UnsupportedAlgorithm) => failure = ValidationError::UnsupportedAlgorithm,
			Err(e) => return Err(e),
		}
	}
	Err(failure)
'''))
m('eq2-sigfn', '', (V, '''		let dnskey_rrsigs = inp.iter()
			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
			.filter(|rrsig| rrsig.name.as_str() == zone && rrsig.ty == DnsKey::TYPE);
''', '''		let dnskey_rrsigs = rrsigs(inp).filter(|rrsig| rrsig.ty == DnsKey::TYPE && rrsig.name.as_str() == zone);
'''), (V, '''		for rrsig in inp.iter()
			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
		{
''', '''		for rrsig in rrsigs(inp) {
			if rrsig.ty == DnsKey::TYPE || rrsig.key_name.as_str() != zone { continue; }
'''), (V, 'fn resolve_time(', '''fn rrsigs<'a>(inp: &'a [RR]) -> impl Iterator<Item = &'a RRSig> + Clone {
	inp.iter().filter_map(|rr| match rr {
		RR::RRSig(sig) => Some(sig),
		_ => None,
	})
}

fn resolve_time('''))
m('eq2-tighten', '', (V, '''		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));
		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);
''', '''		tighten(verified_dnskey_rrsig, &mut latest_inception, &mut earliest_expiry, &mut min_ttl);
'''), (V, '''			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
''', '''			tighten(rrsig, &mut latest_inception, &mut earliest_expiry, &mut min_ttl);
'''), (V, 'fn resolve_time(', '''fn tighten(sig: &RRSig, from: &mut u64, until: &mut u64, ttl: &mut u32) {
	*ttl = sig.orig_ttl.min(*ttl);
	*until = resolve_time(sig.expiration).min(*until);
	*from = resolve_time(sig.inception).max(*from);
}

fn resolve_time('''))
m('eq2-sigq', '', (V, '''			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
				Ok(()) => {},
				Err(ValidationError::UnsupportedAlgorithm) => continue,
				Err(ValidationError::Invalid) => {
					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
					return Err(ValidationError::Invalid);
				}
			}
''', '''			if let Err(e) = verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
				if e == ValidationError::UnsupportedAlgorithm { continue; }
				return Err(e);
			}
'''))
m('eq2-tyif', '', (V, '''			match rrsig.ty {
				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
				DS::TYPE => {''', '''			if rrsig.ty == RRSig::TYPE || rrsig.ty == DnsKey::TYPE { return Err(ValidationError::Invalid); }
			match rrsig.ty {
				DS::TYPE => {'''))
m('eq2-wildfn', '', (V, '''					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {
						if rrsig.ty == NSec3::TYPE {
							// NSEC3 records should never appear on wildcards, so treat the
							// whole proof as invalid
							return Err(ValidationError::Invalid);
						}
						// If the RR used a wildcard, we need an NSEC/NSEC3 proof, which we
						// check for at the end. Note that the proof should be for the
						// "next closest" name, i.e. if the name here is a.b.c and it was
						// signed as *.c, we want a proof for nothing being in b.c.
						// Alternatively, if it was signed as *.b.c, we'd want a proof for
						// a.b.c.
						let proof_name = rrsig.labels.checked_add(1)
							.and_then(|labels| rrsig.name.trailing_n_labels(labels))
							.ok_or(ValidationError::Invalid)?;
						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
					}
''', '''					if let Some(proof_name) = next_closer(rrsig)? {
						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
					}
'''), (V, 'fn resolve_time(', '''fn next_closer(rrsig: &RRSig) -> Result<Option<&str>, ValidationError> {
	let expanded = rrsig.labels != rrsig.name.labels();
	if !expanded || rrsig.ty == NSec::TYPE { return Ok(None); }
	if rrsig.ty == NSec3::TYPE { return Err(ValidationError::Invalid); }
	let labels = rrsig.labels.checked_add(1).ok_or(ValidationError::Invalid)?;
	match rrsig.name.trailing_n_labels(labels) {
		Some(name) => Ok(Some(name)),
		None => Err(ValidationError::Invalid),
	}
}

fn resolve_time('''))
m('eq2-collectfn', '', (V, '''					for record in signed_records {
						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
							denial_records.push((record, &rrsig.key_name));
						}
						if !res.contains(&record) { res.push(record); }
					}
''', '''					let denies = rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE;
					signed_records.for_each(|record| {
						if !res.contains(&record) { res.push(record); }
						if denies { denial_records.push((record, &rrsig.key_name)); }
					});
'''))
m('eq2-proveall', '', (V, '''			if name_contained {
				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
		}
		let nsec3_search''', '''			if name_contained {
				continue 'proof_search_loop;
			}
		}
		let nsec3_search'''), (V, '''			if hash_contained {
				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
				continue 'proof_search_loop;
			}
''', '''			if hash_contained {
				continue 'proof_search_loop;
			}
'''), (V, "'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {", '''rrs_needing_non_existence_proofs.dedup();
	'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {'''))
m('eq2-provefn', '', (V, '''			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
				!name_in_zone(&nsec.next_name, name);
''', '''			let name_contained = nsec_covers(nsec, name);
'''), (V, '''			let hash_contained =
				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
''', '''			let hash_contained = strictly_between(&start_hash, name_hash.as_ref(), &nsec3.next_name_hash);
'''), (V, 'fn resolve_time(', '''fn nsec_covers(nsec: &NSec, name: &str) -> bool {
	if name_in_zone(&nsec.next_name, name) { return false; }
	nsec_ord(name, &nsec.name).is_gt() && nsec_ord(name, &nsec.next_name).is_lt()
}

fn strictly_between(low: &[u8], mid: &[u8], high: &[u8]) -> bool {
	low < mid && mid < high
}

fn resolve_time('''))
m('eq2-n3usable', '', (V, '''			if nsec3.flags != 0 {
				// This is an opt-out NSEC3 (or has unknown flags set). Thus, we shouldn't rely on
				// it as proof that some record doesn't exist.
				continue;
			}
			if nsec3.hash_algo != 1 { continue; }
			let name_hash = if let''', '''			if !usable_nsec3(nsec3) { continue; }
			let name_hash = if let'''), (V, 'fn resolve_time(', '''fn usable_nsec3(nsec3: &NSec3) -> bool {
	nsec3.hash_algo == 1 && nsec3.flags == 0
}

fn resolve_time('''))
m('eq2-n3filter', '', (V, '''		for nsec3 in nsec3_search.clone() {
			if nsec3.hash_iterations > 2500 {
				// RFC 5115 places different limits on the iterations based on the signature key
				// length, but we just use 2500 for all key types
				continue;
			}
			if nsec3.hash_algo != 1 { continue; }
''', '''		for nsec3 in nsec3_search.clone().filter(|n| n.hash_algo == 1 && n.hash_iterations <= 2500) {
'''))
m('eq2-n3decode', '', (V, '''			let (start_hash_base32, _) = nsec3.name.split_once(".")
				.unwrap_or_else(|| { debug_assert!(false); ("", "")});
			let start_hash = if let Ok(start_hash) = base32::decode(start_hash_base32) {
				start_hash
			} else { continue };
			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
''', '''			let first_label = nsec3.name.split('.').next().unwrap_or("");
			let start_hash = match base32::decode(first_label) {
				Ok(hash) if hash.len() == 20 => hash,
				_ => continue,
			};
			if nsec3.next_name_hash.len() != 20 { continue; }
'''))
m('eq2-timecutoff', '', (V, '''	if time < 60*60*24*365*27 {
		(time as u64) + (u32::MAX as u64) + 1
	} else {
		time.into()
	}''', '''	const CUTOFF: u32 = 27 * 365 * 24 * 60 * 60;
	let era = if time >= CUTOFF { 0 } else { 1u64 << 32 };
	era | u64::from(time)'''))
m('eq2-nsecord', '', (V, '''				let mut a_bytes = a_label.bytes();
				let mut b_bytes = b_label.bytes();
				loop {
					match (a_bytes.next(), b_bytes.next()) {
						(Some(_), None) => return Ordering::Greater,
						(None, Some(_)) => return Ordering::Less,
						(Some(mut a), Some(mut b)) => {
							if a >= 'A' as u8 && a <= 'Z' as u8 {
								a += 'a' as u8 - 'A' as u8;
							}
							if b >= 'A' as u8 && b <= 'Z' as u8 {
								b += 'a' as u8 - 'A' as u8;
							}
							if a != b { return a.cmp(&b); }
						},
						(None, None) => break,
					}
				}
''', '''				match a_label.to_ascii_lowercase().as_bytes().cmp(b_label.to_ascii_lowercase().as_bytes()) {
					Ordering::Equal => {},
					other => return other,
				}
'''))
m('eq2-nsecord2', '', (V, '''							if a >= 'A' as u8 && a <= 'Z' as u8 {
								a += 'a' as u8 - 'A' as u8;
							}
							if b >= 'A' as u8 && b <= 'Z' as u8 {
								b += 'a' as u8 - 'A' as u8;
							}
''', '''							a.make_ascii_lowercase();
							b.make_ascii_lowercase();
'''))
m('eq2-finder', '', (V, '''			let mut cname_search = self.verified_rrs.iter()
				.filter(|rr| rr.name() == name)
				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
			if let Some(cname) = cname_search.next() {
				name = &cname.canonical_name;
				continue;
			}
''', '''			if let Some(target) = self.cname_target(name) {
				name = target;
				continue;
			}
'''), (V, '''impl<'a> VerifiedRRStream<'a> {''', '''impl<'a> VerifiedRRStream<'a> {
	fn cname_target(&self, name: &Name) -> Option<&'a Name> {
		self.verified_rrs.iter().find_map(|rr| match rr {
			RR::CName(cname) if cname.name == *name => Some(&cname.canonical_name),
			_ => None,
		})
	}
'''))
m('eq2-dnamefn', '', (V, '''				let prefix = if dname.name.as_str() == "." { name.as_str() } else {
					name.strip_suffix(&*dname.name).expect("We just filtered for this")
				};
				let mut resolved_name = prefix.to_owned();
				if dname.delegation_name.as_str() != "." {
					resolved_name += &dname.delegation_name;
				}
				dname_name = if let Ok(name) = resolved_name.try_into() {
					name
				} else {
					// This should only happen if the combined name ended up being too long
					return Vec::new();
				};
				name = &dname_name;
				continue;
''', '''				dname_name = match substitute(name, dname) {
					Some(name) => name,
					// This should only happen if the combined name ended up being too long
					None => return Vec::new(),
				};
				name = &dname_name;
				continue;
'''), (V, '''impl<'a> VerifiedRRStream<'a> {''', '''fn substitute(name: &Name, dname: &DName) -> Option<Name> {
	let cut = if dname.name.as_str() == "." { name.len() } else { name.len() - dname.name.len() };
	let mut resolved = name[..cut].to_owned();
	if dname.delegation_name.as_str() != "." {
		resolved.push_str(&dname.delegation_name);
	}
	resolved.try_into().ok()
}

impl<'a> VerifiedRRStream<'a> {'''))
m('eq2-nextds', '', (V, '''		let next_ds_set;
		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
			next_ds_set = Some(ds_set);
			zone = next_zone;
		} else {
			debug_assert_eq!(zone, ".");
			next_ds_set = None;
		}
''', '''		let next_ds_set = pending_ds_sets.pop().map(|(next_zone, ds_set)| {
			zone = next_zone;
			ds_set
		});
		debug_assert!(next_ds_set.is_some() || zone == ".");
'''))
m('eq2-keyspre', '', (V, '''		let root_hints = root_hints();
		let verified_dnskey_rrsig = if zone == "." {
			verify_dnskeys(dnskey_rrsigs, &root_hints, dnskeys.clone().collect())?
		} else {
			debug_assert!(next_ds_set.is_some());
			if next_ds_set.is_none() { break 'next_zone; }
			verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?
		};
''', '''		let zone_keys: Vec<&DnsKey> = dnskeys.clone().collect();
		let verified_dnskey_rrsig = match next_ds_set {
			Some(ds_set) if zone != "." => verify_dnskeys(dnskey_rrsigs, ds_set, zone_keys)?,
			None if zone != "." => break 'next_zone,
			_ => verify_dnskeys(dnskey_rrsigs, &root_hints(), zone_keys)?,
		};
'''))
m('eq2-finalfilter', '', (V, '''	res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);

	Ok(VerifiedRRStream {
		verified_rrs: res, valid_from''', '''	let verified_rrs = res.into_iter()
		.filter(|rr| !matches!(rr, RR::NSec(_) | RR::NSec3(_)))
		.collect();

	Ok(VerifiedRRStream {
		verified_rrs, valid_from'''))
m('eq2-checksorder', '', (V, '''	if res.is_empty() { return Err(ValidationError::Invalid) }
	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }
''', '''	if res.is_empty() || earliest_expiry <= latest_inception {
		return Err(ValidationError::Invalid);
	}
'''))
# readers and writers
m('eq2-readu16', '', (S, '''	if inp.len() < 2 { return Err(()); }
	let mut bytes = [0; 2];
	bytes.copy_from_slice(&inp[..2]);
	*inp = &inp[2..];
	Ok(u16::from_be_bytes(bytes))''', '''	match *inp {
		[a, b, rest @ ..] => {
			*inp = rest;
			Ok(u16::from_be_bytes([*a, *b]))
		},
		_ => Err(()),
	}'''))
m('eq2-readu16b', '', (S, '''	if inp.len() < 2 { return Err(()); }
	let mut bytes = [0; 2];
	bytes.copy_from_slice(&inp[..2]);
	*inp = &inp[2..];
	Ok(u16::from_be_bytes(bytes))''', '''	let hi = read_u8(inp)?;
	let lo = read_u8(inp)?;
	Ok(u16::from(hi) << 8 | u16::from(lo))'''))
m('eq2-readu32', '', (S, '''	if inp.len() < 4 { return Err(()); }
	let mut bytes = [0; 4];
	bytes.copy_from_slice(&inp[..4]);
	*inp = &inp[4..];
	Ok(u32::from_be_bytes(bytes))''', '''	let (head, tail) = if inp.len() >= 4 { inp.split_at(4) } else { return Err(()); };
	*inp = tail;
	Ok(u32::from_be_bytes(head.try_into().map_err(|_| ())?))'''), (S, 'use alloc::vec::Vec;', 'use core::convert::TryInto;\nuse alloc::vec::Vec;'))
m('eq2-readu8', '', (S, '''	let res = *inp.get(0).ok_or(())?;
	*inp = &inp[1..];
	Ok(res)''', '''	let (first, rest) = inp.split_first().ok_or(())?;
	*inp = rest;
	Ok(*first)'''))
m('eq2-lenbytes', '', (S, '''	let len = *inp.get(0).ok_or(())?;
	*inp = &inp[1..];
	if inp.len() < len.into() { return Err(()); }
	let mut res = Vec::with_capacity(len.into());
	res.extend_from_slice(&inp[..len.into()]);
	*inp = &inp[len.into()..];
	Ok(res)''', '''	let len = read_u8(inp)? as usize;
	let res = inp.get(..len).ok_or(())?.to_vec();
	*inp = &inp[len..];
	Ok(res)'''))
m('eq2-parserr', '', (S, '''	let data_len = read_u16(inp)? as usize;
	if inp.len() < data_len { return Err(()); }
	let data = &inp[..data_len];
	*inp = &inp[data_len..];

	let rr = match ty {''', '''	let data = read_u16_len_prefixed(inp)?;
	let rr = match ty {'''), (S, 'pub(crate) fn parse_wire_packet_rr(', '''fn read_u16_len_prefixed<'a>(inp: &mut &'a [u8]) -> Result<&'a [u8], ()> {
	let len = usize::from(read_u16(inp)?);
	if len > inp.len() { return Err(()); }
	let (data, rest) = inp.split_at(len);
	*inp = rest;
	Ok(data)
}

pub(crate) fn parse_wire_packet_rr('''))
m('eq2-parsestream', '', (S, '''	let mut res = Vec::with_capacity(32);
	while !inp.is_empty() {
		res.push(parse_rr(&mut inp)?);
	}
	Ok(res)''', '''	let mut res = Vec::new();
	loop {
		if inp.len() == 0 { return Ok(res); }
		let rr = parse_rr(&mut inp)?;
		res.push(rr);
	}'''))
m('eq2-namelen', '', (S, '''		let mut res = 0;
		for label in name.split(".") {
			res += 1 + label.len();
		}
		res as u16''', '''		name.split('.').map(|label| 1 + label.len() as u16).sum()'''))
m('eq2-namelen2', '', (S, '''		let mut res = 0;
		for label in name.split(".") {
			res += 1 + label.len();
		}
		res as u16''', '''		name.len() as u16 + 1'''))
m('eq2-labels', '', (R, '''			self.as_str().chars().filter(|c| *c == '.').count() as u8''', '''			self.as_str().bytes().fold(0, |n, b| if b == b'.' { n + 1 } else { n })'''))
m('eq2-trailing', '', (R, '''		let labels = self.labels();
		if n > labels {
			None
		} else if n == labels {
			Some(self.as_str())
		} else if n == 0 {
			Some(".")
		} else {
			self.as_str().splitn(labels as usize - n as usize + 1, ".").last()
		}''', '''		let skip = self.labels().checked_sub(n)?;
		if skip == 0 { return Some(self.as_str()); }
		if n == 0 { return Some("."); }
		self.as_str().splitn(skip as usize + 1, '.').nth(skip as usize)'''))
m('eq2-keytag1', '', (R, '''		for (idx, b) in self.pubkey.iter().enumerate() {
			if idx % 2 == 0 {
				res += u32::from(*b) << 8;
			} else {
				res += u32::from(*b);
			}
		}
''', '''		for word in self.pubkey.chunks(2) {
			res += u32::from(word[0]) << 8;
			if let Some(low) = word.get(1) { res += u32::from(*low); }
		}
'''))
m('eq2-keytag2', '', (R, '''		for (idx, b) in self.pubkey.iter().enumerate() {
			if idx % 2 == 0 {
				res += u32::from(*b) << 8;
			} else {
				res += u32::from(*b);
			}
		}
''', '''		let mut shift = 8;
		for b in self.pubkey.iter() {
			res += u32::from(*b) << shift;
			shift = 8 - shift;
		}
'''))
m('eq2-keytag3', '', (R, '''		let mut res = u32::from(self.flags);
		res += u32::from(self.protocol) << 8;
		res += u32::from(self.alg);
		for (idx, b) in self.pubkey.iter().enumerate() {
			if idx % 2 == 0 {
				res += u32::from(*b) << 8;
			} else {
				res += u32::from(*b);
			}
		}
		res += (res >> 16) & 0xffff;
		(res & 0xffff) as u16''', '''		let fixed = self.flags as u32 + self.alg as u32 + ((self.protocol as u32) << 8);
		let sum = self.pubkey.iter().enumerate().fold(fixed, |sum, (idx, b)| {
			sum + if idx & 1 == 1 { *b as u32 } else { (*b as u32) << 8 }
		});
		(sum + (sum >> 16)) as u16'''))
m('eq2-keytag4', '', (R, '''		res += (res >> 16) & 0xffff;
		(res & 0xffff) as u16''', '''		let carry = (res >> 16) as u16;
		(res as u16).wrapping_add(carry)'''))
m('eq2-hexhelper', '', (R, '''		for c in self.pubkey.iter() {
			write!(&mut out, "{:02X}", c)
				.expect("Write to a String shouldn't fail");
		}
		out += "\\"}";
		out
	}
	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
		Ok(DnsKey {''', '''		push_hex(&mut out, &self.pubkey);
		out += "\\"}";
		out
	}
	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
		Ok(DnsKey {'''), (R, 'impl DnsKey {', '''fn push_hex(out: &mut String, bytes: &[u8]) {
	const DIGITS: &[u8; 16] = b"0123456789ABCDEF";
	for b in bytes {
		out.push(DIGITS[(b >> 4) as usize] as char);
		out.push(DIGITS[(b & 0xf) as usize] as char);
	}
}
impl DnsKey {'''))
m('eq2-hexiter', '', (R, '''		for c in self.pubkey.iter() {
			write!(&mut out, "{:02X}", c)
				.expect("Write to a String shouldn't fail");
		}
		out += "\\"}";
		out
	}
	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
		Ok(DnsKey {''', '''		let hex: String = self.pubkey.iter().map(|c| alloc::format!("{:02X}", c)).collect();
		out.push_str(&hex);
		out += "\\"}";
		out
	}
	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
		Ok(DnsKey {'''))
m('eq2-keyread', '', (R, '''		Ok(DnsKey {
			name, flags: read_u16(&mut data)?, protocol: read_u8(&mut data)?,
			alg: read_u8(&mut data)?, pubkey: data.to_vec(),
		})''', '''		let flags = read_u16(&mut data)?;
		let protocol = read_u8(&mut data)?;
		let alg = read_u8(&mut data)?;
		let pubkey = Vec::from(data);
		Ok(DnsKey { pubkey, alg, protocol, flags, name })'''))
m('eq2-keywrite', '', (R, '''		let len = 2 + 1 + 1 + self.pubkey.len();
		out.extend_from_slice(&(len as u16).to_be_bytes());
		out.extend_from_slice(&self.flags.to_be_bytes());
		out.extend_from_slice(&self.protocol.to_be_bytes());
		out.extend_from_slice(&self.alg.to_be_bytes());
		out.extend_from_slice(&self.pubkey);''', '''		let start = out.len();
		out.extend_from_slice(&[0; 2]);
		out.extend_from_slice(&self.flags.to_be_bytes());
		out.push(self.protocol);
		out.push(self.alg);
		out.extend_from_slice(&self.pubkey);
		let len = (out.len() - start - 2) as u16;
		out[start..start + 2].copy_from_slice(&len.to_be_bytes());'''))
m('eq2-keywrite2', '', (R, '''		let len = 2 + 1 + 1 + self.pubkey.len();
		out.extend_from_slice(&(len as u16).to_be_bytes());
		out.extend_from_slice(&self.flags.to_be_bytes());
		out.extend_from_slice(&self.protocol.to_be_bytes());
		out.extend_from_slice(&self.alg.to_be_bytes());
		out.extend_from_slice(&self.pubkey);''', '''		let mut data = Vec::with_capacity(4 + self.pubkey.len());
		data.extend_from_slice(&self.flags.to_be_bytes());
		data.push(self.protocol);
		data.push(self.alg);
		data.extend_from_slice(&self.pubkey);
		out.extend_from_slice(&(data.len() as u16).to_be_bytes());
		out.append(&mut data);'''))
# queries and responses
m('eq2-flagsfn', '', (Q, '''	let flags = read_u16(&mut read)?;
	if flags & 0b1000_0000_0000_0000 == 0 {
		return Err(());
	}
	if flags & 0b0111_1010_0000_1111 != 0 {
		return Err(());
	}
	if flags & 0b10_0000 == 0 {
		return Err(());
	}
''', '''	let flags = read_u16(&mut read)?;
	if !flags_acceptable(flags) { return Err(()); }
'''), (Q, 'fn handle_response(', '''fn flags_acceptable(flags: u16) -> bool {
	const QR: u16 = 1 << 15;
	const OPCODE: u16 = 0xf << 11;
	const TC: u16 = 1 << 9;
	const AD: u16 = 1 << 5;
	const RCODE: u16 = 0xf;
	flags & (QR | OPCODE | TC | AD | RCODE) == QR | AD
}

fn handle_response('''))
m('eq2-header', '', (Q, '''	if read_u16(&mut read)? != TXID { return Err(()); }
	// 2 byte transaction ID
	let flags = read_u16(&mut read)?;
''', '''	let txid = read_u16(&mut read)?;
	let flags = read_u16(&mut read)?;
	if txid != TXID { return Err(()); }
'''), (Q, '''	let questions = read_u16(&mut read)?;
	if questions != 1 { return Err(()); }
	let answers = read_u16(&mut read)?;
	if answers == 0 { return Err(()); }
	let authorities = read_u16(&mut read)?;
	let _additional = read_u16(&mut read)?;

	for _ in 0..questions {
		read_wire_packet_name(&mut read, resp)?;
		read_u16(&mut read)?; // type
		read_u16(&mut read)?; // class
	}
''', '''	let questions = read_u16(&mut read)?;
	let answers = read_u16(&mut read)?;
	let authorities = read_u16(&mut read)?;
	let _additional = read_u16(&mut read)?;
	if questions != 1 || answers == 0 { return Err(()); }

	read_wire_packet_name(&mut read, resp)?;
	let _qtype = read_u16(&mut read)?;
	let _qclass = read_u16(&mut read)?;
'''))
m('eq2-addrec', '', (Q, '''		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}

	for _ in 0..authorities {''', '''		min_ttl = min_ttl.min(ttl);
		add_record(rr, ttl, proof, rrsig_key_names);
	}

	for _ in 0..authorities {'''), (Q, '''		match &rr {
			RR::RRSig(rrsig) => {
				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {
					continue;
				}
			},
			RR::NSec(_)|RR::NSec3(_) => {},
			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}
''', '''		let relevant = match &rr {
			RR::NSec(_) | RR::NSec3(_) => true,
			RR::RRSig(rrsig) => rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE,
			_ => false,
		};
		if relevant {
			min_ttl = min_ttl.min(ttl);
			add_record(rr, ttl, proof, rrsig_key_names);
		}
	}
'''), (Q, 'fn handle_response(', '''fn add_record(rr: RR, ttl: u32, proof: &mut Vec<u8>, signers: &mut Vec<Name>) {
	write_rr(&rr, ttl, proof);
	if let RR::RRSig(rrsig) = rr {
		signers.push(rrsig.key_name);
	}
}

fn handle_response('''))
m('eq2-oneloop', '', (Q, '''	for _ in 0..answers {
		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}

	for _ in 0..authorities {
		// Only include records from the authority section if they are NSEC/3 (or signatures
		// thereover). We don't care about NS records here.
		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		match &rr {
			RR::RRSig(rrsig) => {
				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {
					continue;
				}
			},
			RR::NSec(_)|RR::NSec3(_) => {},
			_ => continue,
		}
''', '''	let total = answers as u32 + authorities as u32;
	for idx in 0..total {
		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		if idx >= answers as u32 {
			match &rr {
				RR::RRSig(rrsig) => {
					if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {
						continue;
					}
				},
				RR::NSec(_)|RR::NSec3(_) => {},
				_ => continue,
			}
		}
'''))
m('eq2-newq', '', (Q, '''			if !self.dnskeys_requested.contains(&key_name) {
				new_queries.push(build_query(&key_name, DnsKey::TYPE));
				self.pending_queries += 1;
				self.queries_made += 1;
				self.dnskeys_requested.push(key_name.clone());

				if key_name.as_str() != "." {
					new_queries.push(build_query(&key_name, DS::TYPE));
					self.pending_queries += 1;
					self.queries_made += 1;
				}
			}
		}
''', '''			if self.dnskeys_requested.contains(&key_name) { continue; }
			new_queries.push(build_query(&key_name, DnsKey::TYPE));
			if key_name.as_str() != "." {
				new_queries.push(build_query(&key_name, DS::TYPE));
			}
			self.dnskeys_requested.push(key_name);
		}
		self.pending_queries += new_queries.len();
		self.queries_made += new_queries.len();
'''))
m('eq2-newq2', '', (Q, '''				new_queries.push(build_query(&key_name, DnsKey::TYPE));
				self.pending_queries += 1;
				self.queries_made += 1;
				self.dnskeys_requested.push(key_name.clone());

				if key_name.as_str() != "." {
					new_queries.push(build_query(&key_name, DS::TYPE));
					self.pending_queries += 1;
					self.queries_made += 1;
				}
''', '''				self.dnskeys_requested.push(key_name.clone());
				new_queries.push(self.query_for(&key_name, DnsKey::TYPE));
				if key_name.as_str() != "." {
					new_queries.push(self.query_for(&key_name, DS::TYPE));
				}
'''), (Q, '''	/// Processes a query response from the recursive resolver, returning''', '''	fn query_for(&mut self, name: &Name, ty: u16) -> QueryBuf {
		self.pending_queries += 1;
		self.queries_made += 1;
		build_query(name, ty)
	}

	/// Processes a query response from the recursive resolver, returning'''))
m('eq2-complete', '', (Q, '''		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {
			Err(())
		} else {
			Ok((self.proof, self.min_ttl))
		}''', '''		let complete = self.pending_queries == 0 && self.queries_made <= MAX_REQUESTS;
		if complete { Ok((self.proof, self.min_ttl)) } else { Err(()) }'''))
m('eq2-overlimit', '', (Q, '''		if self.queries_made <= MAX_REQUESTS {
			Ok(new_queries)
		} else {
			Ok(Vec::new())
		}''', '''		if self.queries_made > MAX_REQUESTS { new_queries.clear(); }
		Ok(new_queries)'''))
m('eq2-query', '', (Q, '''	query.extend_from_slice(&TXID.to_be_bytes());
	query.extend_from_slice(&[0x01, 0x20]); // Flags: Recursive, Authenticated Data
	query.extend_from_slice(&[0, 1, 0, 0, 0, 0, 0, 1]); // One question, One additional
''', '''	const HEADER: [u16; 6] = [TXID, 0x0120, 1, 0, 0, 1];
	for field in HEADER.iter() {
		query.extend_from_slice(&field.to_be_bytes());
	}
'''))
m('eq2-query2', '', (Q, '''	query.extend_from_slice(&[0, 0, 0x29]); // . OPT
	query.extend_from_slice(&0u16.to_be_bytes()); // 0 UDP payload size
	query.extend_from_slice(&[0, 0]); // EDNS version 0
	query.extend_from_slice(&0x8000u16.to_be_bytes()); // Accept DNSSEC RRs
	query.extend_from_slice(&0u16.to_be_bytes()); // No additional data
''', '''	query.extend_from_slice(b"\\0\\0\\x29\\0\\0\\0\\0\\x80\\0\\0\\0");
'''))
m('eq2-qbufstack', '', (Q, '''		if self.len > STACK_BUF_LIMIT {
			&self.heap_buf
		} else {
			&self.buf[..self.len as usize]
		}''', '''		if self.on_heap() { &self.heap_buf } else { &self.buf[..self.len.into()] }'''), (Q, '''	/// Converts this query into its bytes on the heap''', '''	fn on_heap(&self) -> bool { self.len > STACK_BUF_LIMIT }

	/// Converts this query into its bytes on the heap'''))
m('eq2-labelloop', '', (S, '''		} else if len >= 0xc0 && recursion_limit > 0 {
			let offs = ((len & !0xc0) << 8) | read_u8(inp)? as usize;
			if offs >= wire_packet.len() { return Err(()); }
			do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1)?;
			break;
		}
''', '''		}
		if len >= 0xc0 && recursion_limit > 0 {
			let offs = (len - 0xc0) * 256 + read_u8(inp)? as usize;
			return match wire_packet.get(offs..) {
				Some(mut rest) if !rest.is_empty() => do_read_wire_packet_labels(&mut rest, wire_packet, name, recursion_limit - 1),
				_ => Err(()),
			};
		}
'''))
m('eq2-labelpush', '', (S, '''		if inp.len() <= len { return Err(()); }
		let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
		// We have no way to represent a "." inside of a label.
		if label.contains('.') { return Err(()); }
		*name += label;
		*name += ".";
		*inp = &inp[len..];
		if name.len() > 255 { return Err(()); }
''', '''		push_label(inp, len, name)?;
		if name.len() > 255 { return Err(()); }
'''), (S, 'fn do_read_wire_packet_labels(', '''fn push_label(inp: &mut &[u8], len: usize, name: &mut String) -> Result<(), ()> {
	if inp.len() <= len { return Err(()); }
	let (label, rest) = inp.split_at(len);
	let label = core::str::from_utf8(label).map_err(|_| ())?;
	if label.bytes().any(|b| b == b'.') { return Err(()); }
	name.push_str(label);
	name.push('.');
	*inp = rest;
	Ok(())
}

fn do_read_wire_packet_labels('''))
m('eq2-writename', '', (S, '''	let canonical_name = name.to_ascii_lowercase();
	if canonical_name == "." {
		out.write(&[0]);
	} else {
		for label in canonical_name.split(".") {
			out.write(&(label.len() as u8).to_be_bytes());
			out.write(label.as_bytes());
		}
	}''', '''	if name != "." {
		for label in name.to_ascii_lowercase().trim_end_matches('.').split('.') {
			out.write(&[label.len() as u8]);
			out.write(label.as_bytes());
		}
	}
	out.write(&[0]);'''))
m('eq2-bitmapread', '', (S, '''		let block = *inp.get(0).ok_or(())?;
		let len = *inp.get(1).ok_or(())?;
		*inp = &inp[2..];
		// RFC 4034 section 4.1.2 limits each window block's bitmap to 32 bytes.
		if len > 32 { return Err(()); }
		if inp.len() < len as usize { return Err(()); }
		res[block as usize * 32..block as usize * 32 + len as usize]
			.copy_from_slice(&inp[..len as usize]);
		*inp = &inp[len as usize..];
''', '''		let start = read_u8(inp)? as usize * 32;
		let len = read_u8(inp)? as usize;
		if len > 32 || len > inp.len() { return Err(()); }
		let (window, rest) = inp.split_at(len);
		res[start..][..len].copy_from_slice(window);
		*inp = rest;
'''))
m('eq2-bitmapwrite', '', (S, '''		if flags != &[0; 32] {
			let last_nonzero_idx = flags.iter().rposition(|flag| *flag != 0)
				.unwrap_or_else(|| { debug_assert!(false); 0 });
			out.write(&(idx as u8).to_be_bytes());
			out.write(&(last_nonzero_idx as u8 + 1).to_be_bytes());
			out.write(&flags[..last_nonzero_idx + 1]);
		}
''', '''		if let Some(last) = flags.iter().rposition(|flag| *flag != 0) {
			out.write(&[idx as u8, last as u8 + 1]);
			out.write(&flags[..=last]);
		}
'''))
m('eq2-bitmaplen', '', (S, '''	let mut total_len = 0;
	for flags in types.chunks(32) {
		debug_assert_eq!(flags.len(), 32);
		if flags != &[0; 32] {
			total_len += 3 + flags.iter().rposition(|flag| *flag != 0)
				.unwrap_or_else(|| { debug_assert!(false); 0 }) as u16;
		}
	}
	total_len''', '''	types.chunks(32)
		.filter_map(|flags| flags.iter().rposition(|flag| *flag != 0))
		.map(|last| last as u16 + 3)
		.sum()'''))
m('eq2-nameiter', '', (R, '''		if s.is_empty() { return Err(()); }
		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
		if s.len() > 255 { return Err(()); }
		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"' || c == '\\\\') { return Err(()); }
		if s != "." {
			for label in s[..s.len() - 1].split(".") {
				if label.is_empty() || label.len() > 63 { return Err(()); }
			}
		}

		Ok(Name(s.to_ascii_lowercase()))''', '''		if s.len() > 255 || !s.ends_with('.') { return Err(()); }
		if !s.bytes().all(|b| b.is_ascii_graphic() && b != b'"' && b != b'\\\\') { return Err(()); }
		let valid_label = |label: &str| !label.is_empty() && label.len() <= 63;
		if s != "." && !s[..s.len() - 1].split('.').all(valid_label) { return Err(()); }
		let mut s = s;
		s.make_ascii_lowercase();
		Ok(Name(s))'''))
m('eq2-txtcmp', '', (R, '''				for i in 1..(self.data.len() / 255) + 2 {
					let start = (i - 1)*255;
					let self_len = cmp::min(i * 255, self.data.len());
					let o_len = cmp::min(i * 255, o.data.len());
					let slice_cmp = self_len.cmp(&o_len)
						.then_with(|| self.data[start..self_len].cmp(&o.data[start..o_len]));
					if !slice_cmp.is_eq() { return slice_cmp; }
				}
				Ordering::Equal
''', '''				let mut a = self.data.chunks(255);
				let mut b = o.data.chunks(255);
				loop {
					let (a, b) = match (a.next(), b.next()) {
						(Some(a), Some(b)) => (a, b),
						(a, b) => return a.is_some().cmp(&b.is_some()),
					};
					let chunk_cmp = a.len().cmp(&b.len()).then_with(|| a.cmp(b));
					if !chunk_cmp.is_eq() { return chunk_cmp; }
				}
'''))
m('eq2-txtread', '', (R, '''			let len = read_u8(&mut data)? as usize;
			if data.len() < len { return Err(()); }
			parsed_data.extend_from_slice(&data[..len]);
			data = &data[len..];
''', '''			let string = read_u8_len_prefixed_bytes(&mut data)?;
			parsed_data.extend(string);
'''))
m('eq2-txtwrite', '', (R, '''		let mut data_write = &self.data[..];
		out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);
		while !data_write.is_empty() {
			let split_pos = core::cmp::min(255, data_write.len());
			out.extend_from_slice(&data_write[..split_pos]);
			data_write = &data_write[split_pos..];
			if !data_write.is_empty() {
				out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);
			}
		}
''', '''		if self.data.is_empty() { out.push(0); }
		for string in self.data.chunks(255) {
			out.push(string.len() as u8);
			out.extend_from_slice(string);
		}
'''))
m('eq2-txtjson', '', (R, '''		if let Ok(s) = core::str::from_utf8(&self.data) {
			if s.chars().all(|c| !c.is_control() && c != '"' && c != '\\\\') {
				return format!("{{\\"type\\":\\"txt\\",\\"name\\":\\"{}\\",\\"contents\\":\\"{}\\"}}", self.name.0, s);
			}
		}
		format!("{{\\"type\\":\\"txt\\",\\"name\\":\\"{}\\",\\"contents\\":{:?}}}", self.name.0, &self.data[..])''', '''		let needs_escape = |c: char| c.is_control() || c == '"' || c == '\\\\';
		match core::str::from_utf8(&self.data) {
			Ok(s) if !s.contains(needs_escape) =>
				format!("{{\\"type\\":\\"txt\\",\\"name\\":\\"{}\\",\\"contents\\":\\"{}\\"}}", self.name.0, s),
			_ => format!("{{\\"type\\":\\"txt\\",\\"name\\":\\"{}\\",\\"contents\\":{:?}}}", self.name.0, &self.data[..]),
		}'''))
m('eq2-fromtypes', '', (R, '''			flags[*t as usize >> 3] |= 1 << (7 - (*t as usize % 8));
''', '''			let (byte, bit) = (usize::from(*t / 8), *t % 8);
			flags[byte] |= 0x80 >> bit;
'''))
m('eq2-contains', '', (R, '''		let f = self.0[(ty >> 3) as usize];
		// DNSSEC's bit fields are in wire order, so the high bit is type 0, etc.
		f & (1 << (7 - (ty % 8))) != 0''', '''		let (byte, bit) = (usize::from(ty / 8), ty & 7);
		(self.0[byte] << bit) & 0x80 == 0x80'''))
m('eq2-maskjson', '', (R, '''		let mut have_written = false;
		for (idx, mask) in self.0.iter().enumerate() {
			if *mask == 0 { continue; }
			for b in 0..8 {
				if *mask & (1 << b) != 0 {
					if have_written {
						*s += ",";
					}
					have_written = true;
					let ty = ((idx as u16) << 3) | (7 - b);
					match RR::ty_to_rr_name(ty) {
						Some(name) => write!(s, "\\"{}\\"", name).expect("Writes to a string shouldn't fail"),
						_ => write!(s, "{}", ty).expect("Writes to a string shouldn't fail"),
					}
				}
			}
		}
''', '''		let mut sep = "";
		for ty in 0..=u16::MAX {
			if !self.contains_type(ty) { continue; }
			*s += sep;
			sep = ",";
			match RR::ty_to_rr_name(ty) {
				Some(name) => write!(s, "\\"{}\\"", name).expect("Writes to a string shouldn't fail"),
				None => write!(s, "{}", ty).expect("Writes to a string shouldn't fail"),
			}
		}
'''))
m('eq2-tlsamatch', '', (R, '''			RR::A(rr) => &rr.name,
			RR::AAAA(rr) => &rr.name,
			RR::NS(rr) => &rr.name,
''', '''			RR::NS(NS { name, .. }) => name,
			RR::A(A { name, .. }) | RR::AAAA(AAAA { name, .. }) => name,
'''))
m('eq2-b32match', '', (B, '''			match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
				Some(&-1) | None => return Err(()),
				Some(&value) => buf[i] = value as u8,
			};
''', '''			let value = match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
				Some(value) if *value >= 0 => *value,
				_ => return Err(()),
			};
			buf[i] = value as u8;
'''))
m('eq2-b32tail', '', (B, '''	for c in ret.drain(output_length..) {
		if c != 0 {
			// If the original string had any bits set at positions outside of the encoded data,
			// treat the string as invalid.
			return Err(());
		}
	}
''', '''	if ret[output_length..].iter().any(|c| *c != 0) { return Err(()); }
	ret.truncate(output_length);
'''))
m('eq2-b32u64', '', (B, '''		let mut buf = [0u8; 8];
		for (i, &c) in chunk.iter().enumerate() {
			match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
				Some(&-1) | None => return Err(()),
				Some(&value) => buf[i] = value as u8,
			};
		}
		ret.push((buf[0] << 3) | (buf[1] >> 2));
		ret.push((buf[1] << 6) | (buf[2] << 1) | (buf[3] >> 4));
		ret.push((buf[3] << 4) | (buf[4] >> 1));
		ret.push((buf[4] << 7) | (buf[5] << 2) | (buf[6] >> 3));
		ret.push((buf[6] << 5) | buf[7]);
''', '''		let mut bits = 0u64;
		for i in 0..8 {
			let value = match chunk.get(i) {
				None => 0,
				Some(c) => match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
					Some(&-1) | None => return Err(()),
					Some(&value) => value as u64,
				},
			};
			bits = (bits << 5) | value;
		}
		ret.extend_from_slice(&bits.to_be_bytes()[3..]);
'''))
# server and wrapper
m('eq2-httpfind', '', (H, '''								for window in buf[..buf_pos].windows(2) {
									if window == b"\\r\\n" { break 'read_req; }
								}
''', '''								if buf[..buf_pos].windows(2).any(|w| w == b"\\r\\n") { break 'read_req; }
'''))
m('eq2-httpargs', '', (H, '''						if let Some((k, v)) = arg.split_once("=") {
							if k == "d" {
								d = v;
							} else if k == "t" {
								t = v;
							}
						} else { break 'ret_err; }
''', '''						match arg.split_once('=') {
							Some(("d", v)) => d = v,
							Some(("t", v)) => t = v,
							Some(_) => {},
							None => break 'ret_err,
						}
'''))
m('eq2-httpparse', '', (H, '''					let mut parts = request.split(" ");
					let (verb, path, http_vers);
					if let Some(v) = parts.next() { verb = v; } else { break 'ret_err; }
					if let Some(p) = parts.next() { path = p; } else { break 'ret_err; }
					if let Some(v) = parts.next() { http_vers = v; } else { break 'ret_err; }
					if parts.next().is_some() { break; }
					if verb != "GET" { break; }
					if http_vers != "HTTP/1.1" && http_vers != "HTTP/1.0" { break 'ret_err; }
''', '''					let path = match request_path(request) {
						Some(path) => path,
						None => break 'ret_err,
					};
'''), (H, '''	pub(super) async fn run_server(''', '''	fn request_path(request: &str) -> Option<&str> {
		let mut parts = request.split(' ');
		let (verb, path, vers) = (parts.next()?, parts.next()?, parts.next()?);
		if parts.next().is_some() { return None; }
		let known_vers = vers == "HTTP/1.0" || vers == "HTTP/1.1";
		if verb == "GET" && known_vers { Some(path) } else { None }
	}

	pub(super) async fn run_server('''))
m('eq2-httpresp', '', (H, '''					let _ = socket.write_all(
						format!(
							"HTTP/1.1 200 OK\\r\\nContent-Length: {}\\r\\nContent-Type: application/octet-stream\\r\\nCache-Control: public, max-age={}, s-maxage={}\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n",
							proof.len(), cache_ttl, cache_ttl
						).as_bytes()
					).await;
					let _ = socket.write_all(&proof).await;
					return;
''', '''					let mut resp = ok_header(proof.len(), cache_ttl).into_bytes();
					resp.extend_from_slice(&proof);
					let _ = socket.write_all(&resp).await;
					return;
'''), (H, '''	pub(super) async fn run_server(''', '''	fn ok_header(len: usize, ttl: u32) -> String {
		format!(
			"HTTP/1.1 200 OK\\r\\nContent-Length: {}\\r\\nContent-Type: application/octet-stream\\r\\nCache-Control: public, max-age={}, s-maxage={}\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n",
			len, ttl, ttl
		)
	}

	pub(super) async fn run_server('''))
m('eq2-httpreadfn', '', (H, '''					let mut buf = [0; 4096];
					let mut buf_pos = 0;
					'read_req: loop {
						if buf_pos == buf.len() { response.1 = "Request Too Large"; break 'ret_err; }
						let read_res = { socket.read(&mut buf[buf_pos..]).await };
						match read_res {
							Ok(0) => return,
							Ok(len) => {
								buf_pos += len;
								for window in buf[..buf_pos].windows(2) {
									if window == b"\\r\\n" { break 'read_req; }
								}
							}
							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},
							Err(_) => return,
						}
					}
''', '''					let mut buf = [0; 4096];
					let mut buf_pos = 0;
					while !has_crlf(&buf[..buf_pos]) {
						if buf_pos >= buf.len() { response.1 = "Request Too Large"; break 'ret_err; }
						match socket.read(&mut buf[buf_pos..]).await {
							Ok(0) => return,
							Ok(len) => buf_pos += len,
							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => continue,
							Err(_) => return,
						}
					}
'''), (H, '''	pub(super) async fn run_server(''', '''	fn has_crlf(data: &[u8]) -> bool {
		data.windows(2).any(|window| window == b"\\r\\n")
	}

	pub(super) async fn run_server('''))
m('eq2-httpbuild', '', (H, '''					let proof_res = match t.to_ascii_uppercase().as_str() {
						"TXT" => build_txt_proof_async(resolver_sockaddr, &query_name).await,
						"TLSA" => build_tlsa_proof_async(resolver_sockaddr, &query_name).await,
						"A" => build_a_proof_async(resolver_sockaddr, &query_name).await,
						"AAAA" => build_aaaa_proof_async(resolver_sockaddr, &query_name).await,
						_ => break 'ret_err,
					};
					let (proof, cache_ttl) = if let Ok(proof) = proof_res { proof } else {
						response = ("404 Not Found", "Failed to generate proof for given domain");
						break 'ret_err;
					};
''', '''					let proof_res = match proof_for(t, resolver_sockaddr, &query_name).await {
						Some(res) => res,
						None => break 'ret_err,
					};
					let (proof, cache_ttl) = match proof_res {
						Ok(proof) => proof,
						Err(_) => {
							response = ("404 Not Found", "Failed to generate proof for given domain");
							break 'ret_err;
						},
					};
'''), (H, '''	pub(super) async fn run_server(''', '''	async fn proof_for(ty: &str, resolver: SocketAddr, name: &Name) -> Option<Result<(Vec<u8>, u32), std::io::Error>> {
		let ty = ty.to_ascii_uppercase();
		Some(match ty.as_str() {
			"A" => build_a_proof_async(resolver, name).await,
			"AAAA" => build_aaaa_proof_async(resolver, name).await,
			"TXT" => build_txt_proof_async(resolver, name).await,
			"TLSA" => build_tlsa_proof_async(resolver, name).await,
			_ => return None,
		})
	}

	pub(super) async fn run_server('''))
m('eq2-httptuple', '', (H, '''							Ok(0) => return,
							Ok(len) => {
								buf_pos += len;''', '''							Ok(len) => {
								if len == 0 { return; }
								buf_pos += len;'''))
m('eq2-wasmdoc', '', (W, '''	let mut resp = String::new();
	write!(&mut resp, "{}",
		format_args!("{{\\"valid_from\\": {}, \\"expires\\": {}, \\"max_cache_ttl\\": {}, \\"verified_rrs\\": [",
		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl)
	).expect("Write to a String shouldn't fail");
''', '''	let mut resp = format!("{{\\"valid_from\\": {}, \\"expires\\": {}, \\"max_cache_ttl\\": {}, \\"verified_rrs\\": [",
		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl);
'''))
m('eq2-wasmresp', '', (W, '''	if response.len() <= u16::MAX as usize {
		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
		answer.copy_from_slice(&response);
		if let Ok(queries) = proof_builder.0.process_response(&answer) {
			for query in queries {
				proof_builder.1.push_back(query);
			}
		}
	}
''', '''	let len = match u16::try_from(response.len()) {
		Ok(len) => len,
		Err(_) => return,
	};
	let mut answer = QueryBuf::new_zeroed(len);
	answer.copy_from_slice(&response);
	if let Ok(queries) = proof_builder.0.process_response(&answer) {
		proof_builder.1.extend(queries);
	}
'''))
m('eq2-sendone', '', (Q, '''	stream.write_all(&(query.len() as u16).to_be_bytes())?;
	stream.write_all(&query)?;
	Ok(())
''', '''	let mut msg = Vec::with_capacity(query.len() + 2);
	msg.extend_from_slice(&(query.len() as u16).to_be_bytes());
	msg.extend_from_slice(query);
	stream.write_all(&msg)
'''))
m('eq2-readlen', '', (Q, '''	let mut len_bytes = [0; 2];
	stream.read_exact(&mut len_bytes)?;
	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));
	stream.read_exact(&mut buf)?;
	Ok(buf)
''', '''	let mut header = [0u8; 2];
	stream.read_exact(&mut header)?;
	let len = u16::from(header[0]) * 256 + u16::from(header[1]);
	let mut response = QueryBuf::new_zeroed(len);
	stream.read_exact(&mut response[..])?;
	Ok(response)
'''))


def src(file, start):
    """The text of the item of /repo's file that starts with `start`, up to its closing brace."""
    t = open('/repo/' + file).read()
    i = t.index(start)
    ind = t[t.rindex('\n', 0, i) + 1:i]
    ind = ind[:len(ind) - len(ind.lstrip('\t'))]
    k = t.index('\n' + ind + '}', i)
    return t[i:k + len(ind) + 2]


def rw(id, props, file, start, new, *more):
    m(id, props, (file, src(file, start), new), *more)


# ---- whole functions written differently
rw('eq3-verify_rrsig', '', V, 'fn verify_rrsig<', '''fn signing_key<'a, Keys: IntoIterator<Item = &'a DnsKey>>(sig: &RRSig, dnskeys: Keys) -> Option<&'a DnsKey> {
	dnskeys.into_iter().find(|key| {
		key.key_tag() == sig.key_tag && key.alg == sig.alg && key.protocol == 3 && (key.flags & 0x0100) != 0
	})
}

fn verify_rrsig<'a, RR: Record, Keys>(sig: &RRSig, dnskeys: Keys, mut records: Vec<&RR>)
-> Result<(), ValidationError>
where Keys: IntoIterator<Item = &'a DnsKey> {
	if records.iter().any(|record| record.ty() != sig.ty) { return Err(ValidationError::Invalid); }
	let dnskey = match signing_key(sig, dnskeys) {
		Some(key) => key,
		None => return Err(ValidationError::Invalid),
	};

	let mut signed_data = Vec::with_capacity(2048);
	signed_data.extend_from_slice(&sig.ty.to_be_bytes());
	signed_data.push(sig.alg);
	signed_data.push(sig.labels);
	signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());
	signed_data.extend_from_slice(&sig.expiration.to_be_bytes());
	signed_data.extend_from_slice(&sig.inception.to_be_bytes());
	signed_data.extend_from_slice(&sig.key_tag.to_be_bytes());
	write_name(&mut signed_data, &sig.key_name);

	records.sort_by_cached_key(|record| {
		let mut data = Vec::new();
		record.write_u16_len_prefixed_data(&mut data);
		data.split_off(2)
	});

	for record in records {
		let name = record.name();
		let record_labels = name.labels();
		if record.ty() == NSec::TYPE || record_labels == sig.labels {
			write_name(&mut signed_data, name);
		} else {
			if record_labels < sig.labels { return Err(ValidationError::Invalid); }
			let suffix = name.trailing_n_labels(sig.labels).ok_or(ValidationError::Invalid)?;
			signed_data.push(1);
			signed_data.push(b'*');
			write_name(&mut signed_data, suffix);
		}
		signed_data.extend_from_slice(&record.ty().to_be_bytes());
		signed_data.extend_from_slice(&[0, 1]);
		signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());
		record.write_u16_len_prefixed_data(&mut signed_data);
	}

	let invalid = |_| ValidationError::Invalid;
	match sig.alg {
		8 => {
			let key = bytes_to_rsa_pk(&dnskey.pubkey).map_err(|()| ValidationError::Invalid)?;
			key.verify(&signature::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY, &signed_data, &sig.signature).map_err(invalid)
		},
		10 => {
			let key = bytes_to_rsa_pk(&dnskey.pubkey).map_err(|()| ValidationError::Invalid)?;
			key.verify(&signature::RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY, &signed_data, &sig.signature).map_err(invalid)
		},
		13 | 14 => {
			let point = [&[4u8][..], &dnskey.pubkey[..]].concat();
			let alg = match sig.alg {
				13 => &signature::ECDSA_P256_SHA256_FIXED,
				_ => &signature::ECDSA_P384_SHA384_FIXED,
			};
			signature::UnparsedPublicKey::new(alg, &point).verify(&signed_data, &sig.signature).map_err(invalid)
		},
		15 => signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)
			.verify(&signed_data, &sig.signature).map_err(invalid),
		_ => Err(ValidationError::UnsupportedAlgorithm),
	}
}''')
rw('eq3-verify_dnskeys', '', V, "fn verify_dnskeys<'r", '''fn authenticates(ds: &DS, key: &DnsKey, sha1_ok: bool) -> bool {
	if key.alg != ds.alg || key.key_tag() != ds.key_tag { return false; }
	let mut hasher = if ds.digest_type == 2 {
		crypto::hash::Hasher::sha256()
	} else if ds.digest_type == 1 && sha1_ok {
		crypto::hash::Hasher::sha1()
	} else {
		return false;
	};
	let mut data = Vec::with_capacity(key.name.len() + 5 + key.pubkey.len());
	write_name(&mut data, &key.name);
	data.extend_from_slice(&key.flags.to_be_bytes());
	data.push(key.protocol);
	data.push(key.alg);
	data.extend_from_slice(&key.pubkey);
	hasher.update(&data);
	*hasher.finish().as_ref() == ds.digest[..]
}

fn verify_dnskeys<'r, 'd, RI, R, DI, D>(sigs: RI, dses: DI, records: Vec<&DnsKey>)
-> Result<&'r RRSig, ValidationError>
where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
      DI: IntoIterator<IntoIter = D>, D: Iterator<Item = &'d DS> + Clone {
	let dses: Vec<&DS> = dses.into_iter().collect();
	if dses.is_empty() { return Err(ValidationError::Invalid); }
	let has_strong = dses.iter().any(|ds| ds.digest_type == 2 || ds.digest_type == 4);
	if !has_strong && !dses.iter().any(|ds| ds.digest_type == 1) {
		return Err(ValidationError::UnsupportedAlgorithm);
	}

	let mut trusted = Vec::new();
	for key in records.iter() {
		if dses.iter().any(|ds| authenticates(ds, key, !has_strong)) {
			trusted.push(*key);
		}
	}

	let mut unsupported = false;
	for sig in sigs {
		let res = verify_rrsig(sig, trusted.iter().map(|k| *k), records.clone());
		match res {
			Ok(()) => return Ok(sig),
			Err(ValidationError::Invalid) => return res.map(|()| sig),
			Err(ValidationError::UnsupportedAlgorithm) => unsupported = true,
		}
	}
	Err(if unsupported { ValidationError::UnsupportedAlgorithm } else { ValidationError::Invalid })
}''')
rw('eq3-resolve_name', '', V, "pub fn resolve_name<'b>", '''pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
		let mut name = name_param.clone();
		let mut hops = 0;
		while hops < MAX_ALIAS_HOPS {
			hops += 1;
			let mut cname = None;
			let mut dname = None;
			for rr in self.verified_rrs.iter() {
				match rr {
					RR::CName(cn) if cname.is_none() && cn.name == name => cname = Some(cn),
					RR::DName(dn) if dname.is_none() && dn.name != name && name_in_zone(&name, &dn.name) => dname = Some(dn),
					_ => {},
				}
			}
			if let Some(cname) = cname {
				name = cname.canonical_name.clone();
			} else if let Some(dname) = dname {
				let prefix = if dname.name.as_str() == "." { name.as_str() } else {
					name.strip_suffix(&*dname.name).expect("We just filtered for this")
				};
				let mut resolved_name = prefix.to_owned();
				if dname.delegation_name.as_str() != "." {
					resolved_name += &dname.delegation_name;
				}
				name = match resolved_name.try_into() {
					Ok(name) => name,
					Err(()) => return Vec::new(),
				};
			} else {
				return self.verified_rrs.iter().copied().filter(|rr| *rr.name() == name).collect();
			}
		}
		Vec::new()
	}''')
rw('eq3-name_in_zone', '', V, 'fn name_in_zone(', '''fn name_in_zone(name: &str, zone: &str) -> bool {
	zone == "." || name == zone ||
		(name.len() > zone.len() && name.ends_with(zone) && name.as_bytes()[name.len() - zone.len() - 1] == b'.')
}''')
rw('eq3-trailing', '', R, 'pub fn trailing_n_labels(', '''pub fn trailing_n_labels(&self, n: u8) -> Option<&str> {
		let labels = self.labels();
		if n > labels { return None; }
		if n == 0 { return Some("."); }
		let mut rest = self.as_str();
		for _ in n..labels {
			rest = rest.split_once('.')?.1;
		}
		Some(rest)
	}''')
rw('eq3-labels', '', R, 'pub fn labels(', '''pub fn labels(&self) -> u8 {
		match self.as_str() {
			"." => 0,
			name => name.matches('.').count() as u8,
		}
	}''')
rw('eq3-labels2', '', R, 'pub fn labels(', '''pub fn labels(&self) -> u8 {
		let mut count = 0;
		if self.0 == "." { return count; }
		for b in self.0.bytes() {
			if b == b'.' { count += 1; }
		}
		count
	}''')
rw('eq3-key_tag', '', R, 'pub fn key_tag(', '''pub fn key_tag(&self) -> u16 {
		let mut rdata = Vec::with_capacity(4 + self.pubkey.len());
		rdata.extend_from_slice(&self.flags.to_be_bytes());
		rdata.push(self.protocol);
		rdata.push(self.alg);
		rdata.extend_from_slice(&self.pubkey);
		let mut sum = 0u32;
		for (idx, b) in rdata.iter().enumerate() {
			sum += if idx % 2 == 0 { (*b as u32) << 8 } else { *b as u32 };
		}
		sum += sum >> 16;
		sum as u16
	}''')
rw('eq3-read_bitmap', '', S, 'pub(crate) fn read_nsec_types_bitmap(', '''pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()> {
	let mut res = [0; 8192];
	while inp.len() > 0 {
		let block = usize::from(read_u8(inp)?);
		let len = usize::from(read_u8(inp)?);
		if len > 32 || inp.len() < len { return Err(()); }
		for i in 0..len {
			res[block * 32 + i] = inp[i];
		}
		*inp = &inp[len..];
	}
	Ok(res)
}''')
rw('eq3-read_bitmap2', '', S, 'pub(crate) fn read_nsec_types_bitmap(', '''pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()> {
	let mut res = [0; 8192];
	let mut data = *inp;
	while !data.is_empty() {
		if data.len() < 2 { return Err(()); }
		let (block, len) = (data[0] as usize, data[1] as usize);
		let end = 2 + len;
		if len > 32 || data.len() < end { return Err(()); }
		let start = block * 32;
		res[start..start + len].copy_from_slice(&data[2..end]);
		data = &data[end..];
	}
	*inp = data;
	Ok(res)
}''')
rw('eq3-write_bitmap', '', S, 'pub(crate) fn write_nsec_types_bitmap<', '''pub(crate) fn write_nsec_types_bitmap<W: Writer>(out: &mut W, types: &[u8; 8192]) {
	for idx in 0..256usize {
		let flags = &types[idx * 32..(idx + 1) * 32];
		let mut len = 32;
		while len > 0 && flags[len - 1] == 0 { len -= 1; }
		if len != 0 {
			out.write(&[idx as u8, len as u8]);
			out.write(&flags[..len]);
		}
	}
}''')
rw('eq3-decode_name', '', S, 'fn do_read_wire_packet_labels(', '''fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut String, recursion_limit: usize) -> Result<(), ()> {
	loop {
		match read_u8(inp)? as usize {
			0 => {
				if name.is_empty() { name.push('.'); }
				return Ok(());
			},
			len if len >= 0xc0 && recursion_limit > 0 => {
				let offs = ((len & 0x3f) << 8) | read_u8(inp)? as usize;
				if offs >= wire_packet.len() { return Err(()); }
				let mut target = &wire_packet[offs..];
				return do_read_wire_packet_labels(&mut target, wire_packet, name, recursion_limit - 1);
			},
			len => {
				if len >= inp.len() { return Err(()); }
				let label = match core::str::from_utf8(&inp[..len]) {
					Ok(label) if !label.contains('.') => label,
					_ => return Err(()),
				};
				name.push_str(label);
				name.push('.');
				*inp = &inp[len..];
				if name.len() > 255 { return Err(()); }
			},
		}
	}
}''')
rw('eq3-parse_rr', '', S, 'pub(crate) fn parse_wire_packet_rr(', '''pub(crate) fn parse_wire_packet_rr(inp: &mut &[u8], wire_packet: &[u8]) -> Result<(RR, u32), ()> {
	fn read<T: StaticRecord + Into<RR>>(name: Name, data: &[u8], wire_packet: &[u8]) -> Result<RR, ()> {
		T::read_from_data(name, data, wire_packet).map(Into::into)
	}
	let name = read_wire_packet_name(inp, wire_packet)?;
	let (ty, class) = (read_u16(inp)?, read_u16(inp)?);
	if class != 1 { return Err(()); }
	let ttl = read_u32(inp)?;
	let data_len = read_u16(inp)? as usize;
	let data = inp.get(..data_len).ok_or(())?;
	*inp = &inp[data_len..];

	let rr = match ty {
		A::TYPE => read::<A>(name, data, wire_packet),
		AAAA::TYPE => read::<AAAA>(name, data, wire_packet),
		NS::TYPE => read::<NS>(name, data, wire_packet),
		Txt::TYPE => read::<Txt>(name, data, wire_packet),
		CName::TYPE => read::<CName>(name, data, wire_packet),
		DName::TYPE => read::<DName>(name, data, wire_packet),
		TLSA::TYPE => read::<TLSA>(name, data, wire_packet),
		DnsKey::TYPE => read::<DnsKey>(name, data, wire_packet),
		DS::TYPE => read::<DS>(name, data, wire_packet),
		RRSig::TYPE => read::<RRSig>(name, data, wire_packet),
		NSec::TYPE => read::<NSec>(name, data, wire_packet),
		NSec3::TYPE => read::<NSec3>(name, data, wire_packet),
		_ => Err(()),
	}?;
	Ok((rr, ttl))
}''')
rw('eq3-handle_response', '', Q, 'fn handle_response(', '''fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<Name>) -> Result<u32, ()> {
	let mut read: &[u8] = resp;
	let mut header = [0u16; 6];
	for field in header.iter_mut() {
		*field = read_u16(&mut read)?;
	}
	let [txid, flags, questions, answers, authorities, _additional] = header;
	if txid != TXID || flags & 0xfa2f != 0x8020 { return Err(()); }
	if questions != 1 || answers == 0 { return Err(()); }

	read_wire_packet_name(&mut read, resp)?;
	read_u32(&mut read)?; // type and class

	let mut min_ttl = u32::MAX;
	let mut include = |rr: RR, ttl: u32| {
		write_rr(&rr, ttl, proof);
		if ttl < min_ttl { min_ttl = ttl; }
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	};
	for _ in 0..answers {
		let (rr, ttl) = parse_wire_packet_rr(&mut read, resp)?;
		include(rr, ttl);
	}
	for _ in 0..authorities {
		let (rr, ttl) = parse_wire_packet_rr(&mut read, resp)?;
		let is_denial = match rr {
			RR::NSec(_) | RR::NSec3(_) => true,
			RR::RRSig(ref sig) => matches!(sig.ty, NSec::TYPE | NSec3::TYPE),
			_ => false,
		};
		if is_denial { include(rr, ttl); }
	}
	Ok(min_ttl)
}''')
rw('eq3-handle_while', '', Q, 'fn handle_response(', '''fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<Name>) -> Result<u32, ()> {
	let mut read: &[u8] = resp;
	let txid = read_u16(&mut read)?;
	let flags = read_u16(&mut read)?;
	let question_count = read_u16(&mut read)?;
	let mut answers_left = read_u16(&mut read)?;
	let mut authorities_left = read_u16(&mut read)?;
	read_u16(&mut read)?;
	let is_response = flags >> 15 == 1;
	let opcode = (flags >> 11) & 0xf;
	let truncated = flags & 0x0200 != 0;
	let authenticated = flags & 0x0020 != 0;
	let rcode = flags & 0xf;
	if txid != TXID || !is_response || opcode != 0 || truncated || !authenticated || rcode != 0 {
		return Err(());
	}
	if question_count != 1 { return Err(()); }
	if answers_left == 0 { return Err(()); }
	read_wire_packet_name(&mut read, resp)?;
	read_u16(&mut read)?;
	read_u16(&mut read)?;

	let mut min_ttl = u32::MAX;
	while answers_left > 0 {
		answers_left -= 1;
		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		write_rr(&rr, ttl, proof);
		min_ttl = min_ttl.min(ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}
	while authorities_left > 0 {
		authorities_left -= 1;
		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		match rr {
			RR::NSec(_) | RR::NSec3(_) => {
				write_rr(&rr, ttl, proof);
				min_ttl = min_ttl.min(ttl);
			},
			RR::RRSig(ref rrsig) if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE => {
				write_rr(&rr, ttl, proof);
				min_ttl = min_ttl.min(ttl);
				rrsig_key_names.push(rrsig.key_name.clone());
			},
			_ => {},
		}
	}
	Ok(min_ttl)
}''')
rw('eq3-process_response', '', Q, 'pub fn process_response(', '''pub fn process_response(&mut self, resp: &QueryBuf) -> Result<Vec<QueryBuf>, ()> {
		if self.pending_queries == 0 { return Err(()); }

		let mut signers = Vec::new();
		let mut new_records = Vec::new();
		let min_ttl = handle_response(&resp, &mut new_records, &mut signers)?;
		self.pending_queries -= 1;
		self.min_ttl = self.min_ttl.min(min_ttl);
		self.proof.append(&mut new_records);

		let mut new_queries = Vec::new();
		for signer in signers {
			if self.dnskeys_requested.contains(&signer) { continue; }
			new_queries.push(build_query(&signer, DnsKey::TYPE));
			if signer.as_str() != "." {
				new_queries.push(build_query(&signer, DS::TYPE));
			}
			self.dnskeys_requested.push(signer);
		}
		self.pending_queries += new_queries.len();
		self.queries_made += new_queries.len();
		if self.queries_made > MAX_REQUESTS { return Ok(Vec::new()); }
		Ok(new_queries)
	}''')
rw('eq3-build_query', '', Q, 'fn build_query(', '''fn build_query(domain: &Name, ty: u16) -> QueryBuf {
	fn put_u16(query: &mut QueryBuf, value: u16) { query.extend_from_slice(&value.to_be_bytes()); }
	let mut query = QueryBuf::new_zeroed(0);
	put_u16(&mut query, TXID);
	put_u16(&mut query, 0x0120); // RD, AD
	put_u16(&mut query, 1);
	put_u16(&mut query, 0);
	put_u16(&mut query, 0);
	put_u16(&mut query, 1);
	write_name(&mut query, domain);
	put_u16(&mut query, ty);
	put_u16(&mut query, 1);
	query.extend_from_slice(&[0]); // root
	put_u16(&mut query, 41); // OPT
	put_u16(&mut query, 0);
	query.extend_from_slice(&0x8000u32.to_be_bytes());
	put_u16(&mut query, 0);
	query
}''')
rw('eq3-build_query2', '', Q, 'fn build_query(', '''fn build_query(domain: &Name, ty: u16) -> QueryBuf {
	let mut query = QueryBuf::new_zeroed(12);
	query[2] = 1;
	query[3] = 0x20;
	query[5] = 1;
	query[11] = 1;
	write_name(&mut query, domain);
	query.extend_from_slice(&ty.to_be_bytes());
	let tail = [0, 1, 0, 0, 0x29, 0, 0, 0, 0, 0x80, 0, 0, 0];
	query.extend_from_slice(&tail);
	query
}''')
rw('eq3-qbuf_extend', '', Q, 'pub fn extend_from_slice(', '''pub fn extend_from_slice(&mut self, sl: &[u8]) {
		let old_len = self.len as usize;
		// If we'd exceed `u16::MAX` simply drop whatever doesn't fit.
		let added = cmp::min(sl.len(), u16::MAX as usize - old_len);
		let new_len = old_len + added;
		if new_len <= STACK_BUF_LIMIT as usize {
			self.buf[old_len..new_len].copy_from_slice(&sl[..added]);
		} else {
			if old_len <= STACK_BUF_LIMIT as usize {
				self.heap_buf = self.buf[..old_len].to_vec();
			}
			self.heap_buf.extend_from_slice(&sl[..added]);
		}
		self.len = new_len as u16;
	}''')
rw('eq3-qbuf_new', '', Q, 'pub fn new_zeroed(', '''pub fn new_zeroed(len: u16) -> Self {
		let mut res = Self { buf: [0; STACK_BUF_LIMIT as usize], heap_buf: Vec::new(), len };
		if len > STACK_BUF_LIMIT { res.heap_buf.resize(len as usize, 0); }
		res
	}''')
rw('eq3-b32', '', B, 'fn decode_data(', '''fn decode_data(data: &[u8], alphabet: [i8; 39]) -> Result<Vec<u8>, ()> {
	let mut ret = Vec::with_capacity(data.len() * 5 / 8);
	let mut acc = 0u32;
	let mut bits = 0;
	for &c in data {
		let value = match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
			Some(&-1) | None => return Err(()),
			Some(&value) => value as u32,
		};
		acc = (acc << 5) | value;
		bits += 5;
		if bits >= 8 {
			bits -= 8;
			ret.push((acc >> bits) as u8);
			acc &= (1 << bits) - 1;
		}
	}
	if acc != 0 { return Err(()); }
	Ok(ret)
}''')
rw('eq3-txtjson', '', R, 'impl Ord for Txt {', '''impl Ord for Txt {
	fn cmp(&self, o: &Txt) -> Ordering {
		let wire = |txt: &Txt| {
			let mut out = Vec::new();
			for string in txt.data.chunks(255) {
				out.push(string.len() as u8);
				out.extend_from_slice(string);
			}
			out
		};
		self.name.cmp(&o.name).then_with(|| wire(self).cmp(&wire(o)))
	}
}''')
rw('eq3-nsec_ord', '', V, 'fn nsec_ord(', '''fn nsec_ord(a: &str, b: &str) -> Ordering {
	let a_labels = a.rsplit('.').map(|label| label.to_ascii_lowercase());
	let b_labels = b.rsplit('.').map(|label| label.to_ascii_lowercase());
	a_labels.cmp(b_labels)
}''')
rw('eq3-nsec_ord2', '', V, 'fn nsec_ord(', '''fn nsec_ord(a: &str, b: &str) -> Ordering {
	let mut a_labels = a.rsplit('.');
	let mut b_labels = b.rsplit('.');
	loop {
		let (a_label, b_label) = match (a_labels.next(), b_labels.next()) {
			(None, None) => return Ordering::Equal,
			(None, Some(_)) => return Ordering::Less,
			(Some(_), None) => return Ordering::Greater,
			(Some(a_label), Some(b_label)) => (a_label, b_label),
		};
		let ord = a_label.bytes().map(|c| c.to_ascii_lowercase())
			.cmp(b_label.bytes().map(|c| c.to_ascii_lowercase()));
		if ord != Ordering::Equal { return ord; }
	}
}''')
rw('eq3-resolve_time', '', V, 'fn resolve_time(', '''fn resolve_time(time: u32) -> u64 {
	let rolled_over = time < 851_472_000;
	let mut time = u64::from(time);
	if rolled_over { time += 1 << 32; }
	time
}''')
rw('eq3-rsapk', '', V, "fn bytes_to_rsa_pk<'a>(", '''fn bytes_to_rsa_pk<'a>(pubkey: &'a [u8]) -> Result<signature::RsaPublicKeyComponents<&'a [u8]>, ()> {
	let (exponent_length, rest) = match pubkey {
		[0, hi, lo, rest @ ..] => (u16::from_be_bytes([*hi, *lo]) as usize, rest),
		[0, ..] | [] => return Err(()),
		[len, rest @ ..] => (*len as usize, rest),
	};
	if rest.len() <= exponent_length { return Err(()); }
	let (e, n) = rest.split_at(exponent_length);
	Ok(signature::RsaPublicKeyComponents { n, e })
}''')
rw('eq3-b32decode', '', B, 'pub fn decode(', '''pub fn decode(data: &str) -> Result<Vec<u8>, ()> {
	let bytes = data.as_bytes();
	let rem = bytes.len() & 7;
	if rem == 1 || rem == 3 || rem == 6 { return Err(()); }
	decode_data(bytes, RFC4648_INV_ALPHABET)
}''')
rw('eq3-wasm_verify', '', W, 'fn do_verify_byte_stream(', '''fn do_verify_byte_stream(stream: Vec<u8>) -> Result<String, ValidationError> {
	let rrs = match parse_rr_stream(&stream) {
		Ok(rrs) => rrs,
		Err(()) => return Err(ValidationError::Invalid),
	};
	let verified = verify_rr_stream(&rrs)?;
	let records: Vec<String> = verified.verified_rrs.iter().map(|rr| rr.json()).collect();
	Ok(format!("{{\\"valid_from\\": {}, \\"expires\\": {}, \\"max_cache_ttl\\": {}, \\"verified_rrs\\": [{}]}}",
		verified.valid_from, verified.expires, verified.max_cache_ttl, records.join(", ")))
}''')
rw('eq3-wasm_init', '', W, 'pub fn init_proof_builder(', '''pub fn init_proof_builder(name: String, ty: u16) -> Option<WASMProofBuilder> {
	let absolute = if name.ends_with('.') { name } else { format!("{}.", name) };
	let qname = absolute.try_into().ok()?;
	let (builder, initial_query) = ProofBuilder::new(&qname, ty);
	Some(WASMProofBuilder(builder, VecDeque::from(vec![initial_query])))
}''')

# ---- the walk over the zones and its parts, rewritten
def vrs(id, *edits):
    m(id, '', *[(V, a, b) for a, b in edits])


vrs('eq4-zonekeys', ("""		let dnskeys = inp.iter()
			.filter_map(|rr| if let RR::DnsKey(dnskey) = rr { Some(dnskey) } else { None })
			.filter(move |dnskey| dnskey.name.as_str() == zone);
""", """		let mut dnskeys: Vec<&'a DnsKey> = Vec::new();
		for rr in inp {
			match rr {
				RR::DnsKey(dnskey) if dnskey.name.as_str() == zone => dnskeys.push(dnskey),
				_ => {},
			}
		}
"""), ("verify_dnskeys(dnskey_rrsigs, &root_hints, dnskeys.clone().collect())?", "verify_dnskeys(dnskey_rrsigs, &root_hints, dnskeys.clone())?"),
    ("verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?", "verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone())?"),
    ("match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {", "match verify_rrsig(rrsig, dnskeys.iter().copied(), signed_records.clone().collect()) {"))

vrs('eq4-loopfirst', ("""	'next_zone: while zone == "." || !pending_ds_sets.is_empty() {
		let next_ds_set;
		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
			next_ds_set = Some(ds_set);
			zone = next_zone;
		} else {
			debug_assert_eq!(zone, ".");
			next_ds_set = None;
		}
""", """	loop {
		let next_ds_set = match pending_ds_sets.pop() {
			Some((next_zone, ds_set)) => {
				zone = next_zone;
				Some(ds_set)
			},
			None => None,
		};
"""), ("""			debug_assert!(next_ds_set.is_some());
			if next_ds_set.is_none() { break 'next_zone; }
""", """			if next_ds_set.is_none() { break; }
"""), ("		if pending_ds_sets.is_empty() { break 'next_zone; }\n", "		if pending_ds_sets.is_empty() { break; }\n"))

vrs('eq4-matchzone', ("""		let verified_dnskey_rrsig = if zone == "." {
			verify_dnskeys(dnskey_rrsigs, &root_hints, dnskeys.clone().collect())?
		} else {
			debug_assert!(next_ds_set.is_some());
			if next_ds_set.is_none() { break 'next_zone; }
			verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?
		};
""", """		let zone_keys: Vec<_> = dnskeys.clone().collect();
		let verified_dnskey_rrsig = match (zone, next_ds_set) {
			(".", _) => verify_dnskeys(dnskey_rrsigs, &root_hints, zone_keys)?,
			(_, Some(ds_set)) => verify_dnskeys(dnskey_rrsigs, ds_set, zone_keys)?,
			(_, None) => break 'next_zone,
		};
"""))

vrs('eq4-limits', ("""		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));
		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);
""", """		let mut apply_limits = |sig: &RRSig| {
			latest_inception = latest_inception.max(resolve_time(sig.inception));
			earliest_expiry = earliest_expiry.min(resolve_time(sig.expiration));
			min_ttl = min_ttl.min(sig.orig_ttl);
		};
		apply_limits(verified_dnskey_rrsig);
"""), ("""			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
""", """			apply_limits(rrsig);
"""))

vrs('eq4-collectsigs', ("""	let mut latest_inception = 0;
	let mut earliest_expiry = u64::MAX;
	let mut min_ttl = u32::MAX;
	'next_zone""", """	let mut used_sigs: Vec<&RRSig> = Vec::new();
	'next_zone"""), ("""		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));
		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);
""", """		used_sigs.push(verified_dnskey_rrsig);
"""), ("""			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
""", """			used_sigs.push(rrsig);
"""), ("""	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }
""", """	let latest_inception = used_sigs.iter().map(|sig| resolve_time(sig.inception)).max().unwrap_or(0);
	let earliest_expiry = used_sigs.iter().map(|sig| resolve_time(sig.expiration)).min().unwrap_or(u64::MAX);
	let min_ttl = used_sigs.iter().map(|sig| sig.orig_ttl).min().unwrap_or(u32::MAX);
	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }
"""))

vrs('eq4-foldlimits', ("""	let mut latest_inception = 0;
	let mut earliest_expiry = u64::MAX;
	let mut min_ttl = u32::MAX;
	'next_zone""", """	let mut limits = (0u64, u64::MAX, u32::MAX);
	let narrow = |(from, until, ttl): (u64, u64, u32), sig: &RRSig| -> (u64, u64, u32) {
		(from.max(resolve_time(sig.inception)), until.min(resolve_time(sig.expiration)), ttl.min(sig.orig_ttl))
	};
	'next_zone"""), ("""		latest_inception = cmp::max(latest_inception, resolve_time(verified_dnskey_rrsig.inception));
		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));
		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);
""", """		limits = narrow(limits, verified_dnskey_rrsig);
"""), ("""			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
""", """			limits = narrow(limits, rrsig);
"""), ("""	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }
""", """	let (latest_inception, earliest_expiry, min_ttl) = limits;
	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }
"""))

vrs('eq4-sigresult', ("""			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
				Ok(()) => {},
				Err(ValidationError::UnsupportedAlgorithm) => continue,
				Err(ValidationError::Invalid) => {
					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
					return Err(ValidationError::Invalid);
				}
			}
""", """			let record_set: Vec<&RR> = signed_records.clone().collect();
			if let Err(e) = verify_rrsig(rrsig, dnskeys.clone(), record_set) {
				if matches!(e, ValidationError::UnsupportedAlgorithm) { continue; }
				return Err(e);
			}
"""))

vrs('eq4-sigbool', ("""			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
				Ok(()) => {},
				Err(ValidationError::UnsupportedAlgorithm) => continue,
				Err(ValidationError::Invalid) => {
					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
					return Err(ValidationError::Invalid);
				}
			}
""", """			let supported = match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
				Ok(()) => true,
				Err(ValidationError::UnsupportedAlgorithm) => false,
				Err(ValidationError::Invalid) => return Err(ValidationError::Invalid),
			};
			if !supported { continue; }
"""))

vrs('eq4-dsbranch', ("""					if rrsig.labels != rrsig.name.labels() { return Err(ValidationError::Invalid); }
					if !seen_zones.contains(&rrsig.name.as_str()) {
						seen_zones.push(&rrsig.name);
						pending_ds_sets.push((
							&rrsig.name,
							signed_records.filter_map(|rr|
								if let RR::DS(ds) = rr { Some(ds) }
								else { debug_assert!(false, "We already filtered by type"); None })
						));
					}
""", """					let child = rrsig.name.as_str();
					if rrsig.labels != rrsig.name.labels() { return Err(ValidationError::Invalid); }
					if seen_zones.iter().any(|seen| *seen == child) { continue; }
					seen_zones.push(child);
					let ds_set = signed_records.filter_map(|rr| match rr {
						RR::DS(ds) => Some(ds),
						_ => None,
					});
					pending_ds_sets.push((child, ds_set));
"""))

vrs('eq4-wildcardflag', ("""					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {
						if rrsig.ty == NSec3::TYPE {
""", """					let is_wildcard = rrsig.labels != rrsig.name.labels();
					let is_denial = rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE;
					if is_wildcard && rrsig.ty != NSec::TYPE {
						if is_denial {
"""), ("""						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
							denial_records.push((record, &rrsig.key_name));
						}
""", """						if is_denial { denial_records.push((record, &rrsig.key_name)); }
"""))

vrs('eq4-proofmatch', ("""						let proof_name = rrsig.labels.checked_add(1)
							.and_then(|labels| rrsig.name.trailing_n_labels(labels))
							.ok_or(ValidationError::Invalid)?;
						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
""", """						let proof_labels = match rrsig.labels.checked_add(1) {
							Some(labels) => labels,
							None => return Err(ValidationError::Invalid),
						};
						match rrsig.name.trailing_n_labels(proof_labels) {
							Some(proof_name) => rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name)),
							None => return Err(ValidationError::Invalid),
						}
"""))

vrs('eq4-tysplit', ("""			match rrsig.ty {
				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
""", """			if rrsig.ty == RRSig::TYPE || rrsig.ty == DnsKey::TYPE {
				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
				return Err(ValidationError::Invalid);
			}
			match rrsig.ty {
"""))

vrs('eq4-resdedup', ("						if !res.contains(&record) { res.push(record); }\n", """						let known = res.iter().any(|existing: &&RR| **existing == *record);
						if !known { res.push(record); }
"""))

vrs('eq4-recextend', ("""					for record in signed_records {
						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
							denial_records.push((record, &rrsig.key_name));
						}
						if !res.contains(&record) { res.push(record); }
					}
""", """					if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
						denial_records.extend(signed_records.clone().map(|record| (record, &rrsig.key_name)));
					}
					for record in signed_records {
						if !res.contains(&record) { res.push(record); }
					}
"""))

vrs('eq4-denialif', ("""					for record in signed_records {
						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
							denial_records.push((record, &rrsig.key_name));
						}
						if !res.contains(&record) { res.push(record); }
					}
""", """					for record in signed_records {
						match record {
							RR::NSec(_) | RR::NSec3(_) => denial_records.push((record, &rrsig.key_name)),
							_ => {},
						}
						if res.contains(&record) { continue; }
						res.push(record);
					}
"""))

vrs('eq4-nodenialinres', ("""					for record in signed_records {
						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
							denial_records.push((record, &rrsig.key_name));
						}
						if !res.contains(&record) { res.push(record); }
					}
""", """					for record in signed_records {
						if !res.contains(&record) { res.push(record); }
						if record.ty() != NSec::TYPE && record.ty() != NSec3::TYPE { continue; }
						denial_records.push((record, &rrsig.key_name));
					}
"""), ("	res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);\n", "	res.retain(|rr| !matches!(rr.ty(), NSec::TYPE | NSec3::TYPE));\n"))

vrs('eq4-retainmatch', ("	res.retain(|rr| rr.ty() != NSec::TYPE && rr.ty() != NSec3::TYPE);\n", "	res.retain(|rr| !matches!(rr, RR::NSec(_) | RR::NSec3(_)));\n"))

vrs('eq4-splitdenial', ("		let nsec_search = denial_records.iter()\n			.filter(|(_, signer)| *signer == zone)\n			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });",
    """		let nsec_search = denial_records.iter().filter_map(|(rr, signer)| match rr {
			RR::NSec(nsec) if *signer == zone => Some(nsec),
			_ => None,
		});"""), ("		let nsec3_search = denial_records.iter()\n			.filter(|(_, signer)| *signer == zone)\n			.filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None });",
    """		let nsec3_search = denial_records.iter().filter_map(|(rr, signer)| match rr {
			RR::NSec3(nsec3) if *signer == zone => Some(nsec3),
			_ => None,
		});"""))

vrs('eq4-coverfns', ("""			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
				!name_in_zone(&nsec.next_name, name);
			if name_contained {
""", """			if nsec_covers(nsec, name) {
"""), ("/// Verifies the given set of resource records.\n///\n/// Given a set", """/// Whether the NSEC shows that nothing exists at the name or below it.
fn nsec_covers(nsec: &NSec, name: &str) -> bool {
	if nsec_ord(&nsec.name, name) != Ordering::Less { return false; }
	if nsec_ord(&nsec.next_name, name) != Ordering::Greater { return false; }
	!name_in_zone(&nsec.next_name, name)
}

/// Verifies the given set of resource records.
///
/// Given a set"""))

vrs('eq4-hashfold', ("""			for _ in 0..nsec3.hash_iterations {
				let res = hasher.finish();
				hasher = crypto::hash::Hasher::sha1();
				hasher.update(res.as_ref());
				hasher.update(&nsec3.salt);
			}
			nsec3params_to_name_hash.push((nsec3.hash_iterations, &nsec3.salt, hasher.finish()));
""", """			let mut digest = hasher.finish();
			let mut iterations_left = nsec3.hash_iterations;
			while iterations_left > 0 {
				let mut hasher = crypto::hash::Hasher::sha1();
				hasher.update(digest.as_ref());
				hasher.update(&nsec3.salt);
				digest = hasher.finish();
				iterations_left -= 1;
			}
			nsec3params_to_name_hash.push((nsec3.hash_iterations, &nsec3.salt, digest));
"""))

vrs('eq4-hashskip', ("""			if nsec3.hash_iterations > 2500 {
				// RFC 5115 places different limits on the iterations based on the signature key
				// length, but we just use 2500 for all key types
				continue;
			}
			if nsec3.hash_algo != 1 { continue; }
			if nsec3params_to_name_hash.iter()
				.any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)
			{ continue; }
""", """			let usable = nsec3.hash_algo == 1 && nsec3.hash_iterations <= 2500;
			let already_hashed = nsec3params_to_name_hash.iter()
				.any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt);
			if !usable || already_hashed { continue; }
"""))

vrs('eq4-takecap', ("""			if nsec3params_to_name_hash.len() >= 2 {
				// We only allow for up to two sets of hash_iterations/salt per zone. Beyond that
				// we assume this is a malicious DoSing proof and give up.
				break;
			}
""", ""), ("			if nsec3.hash_iterations > 2500 {\n", "			// We only allow for up to two sets of hash_iterations/salt per zone. Beyond that we assume\n			// this is a malicious DoSing proof and give up.\n			if nsec3params_to_name_hash.len() >= 2 { break; }\n			if nsec3.hash_iterations > 2500 {\n"))

vrs('eq4-nsec3if', ("""			if nsec3.flags != 0 {
				// This is an opt-out NSEC3 (or has unknown flags set). Thus, we shouldn't rely on
				// it as proof that some record doesn't exist.
				continue;
			}
			if nsec3.hash_algo != 1 { continue; }
			let name_hash = if let Some((_, _, hash)) =
				nsec3params_to_name_hash.iter()
				.find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)
			{
				hash
			} else { continue };
""", """			if nsec3.flags != 0 || nsec3.hash_algo != 1 { continue; }
			let mut name_hash = None;
			for (iterations, salt, hash) in nsec3params_to_name_hash.iter() {
				if *iterations == nsec3.hash_iterations && **salt == nsec3.salt {
					name_hash = Some(hash);
					break;
				}
			}
			let name_hash = match name_hash {
				Some(hash) => hash,
				None => continue,
			};
"""))

vrs('eq4-hashrange', ("""			let hash_contained =
				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
			if hash_contained {
""", """			let target: &[u8] = name_hash.as_ref();
			let below = start_hash.as_slice().cmp(target) == Ordering::Less;
			let above = nsec3.next_name_hash.as_slice().cmp(target) == Ordering::Greater;
			if below && above {
"""))

vrs('eq4-proofindex', ("			if name_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n", "			if name_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| !(*n == name && *z == zone));\n"))

vrs('eq4-noretain', ("			if name_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n", "			if name_contained {\n"),
    ("			if hash_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n", "			if hash_contained {\n"))

vrs('eq4-splitonce', ("""			let (start_hash_base32, _) = nsec3.name.split_once(".")
				.unwrap_or_else(|| { debug_assert!(false); ("", "")});
			let start_hash = if let Ok(start_hash) = base32::decode(start_hash_base32) {
				start_hash
			} else { continue };
			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
""", """			let first_label = match nsec3.name.split('.').next() {
				Some(label) => label,
				None => continue,
			};
			let start_hash = match base32::decode(first_label) {
				Ok(hash) if hash.len() == 20 => hash,
				_ => continue,
			};
			if nsec3.next_name_hash.len() != 20 { continue; }
"""))

# ---- signatures
vrs('eq4-guards', ("""		if dnskey.key_tag() == sig.key_tag {
			// Protocol must be 3, otherwise its not DNSSEC
			if dnskey.protocol != 3 { continue; }
			// The ZONE flag must be set if we're going to validate RRs with this key.
			if dnskey.flags & 0b1_0000_0000 == 0 { continue; }
			if dnskey.alg != sig.alg { continue; }
""", """		let is_zone_key = dnskey.protocol == 3 && dnskey.flags & 0x100 == 0x100;
		if is_zone_key && dnskey.alg == sig.alg && dnskey.key_tag() == sig.key_tag {
"""))

vrs('eq4-sigverifyfn', ("""			let sig_validation = match sig.alg {
				8|10 => {
					let alg = if sig.alg == 8 {
						&signature::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY
					} else {
						&signature::RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY
					};
					bytes_to_rsa_pk(&dnskey.pubkey).map_err(|_| ValidationError::Invalid)?
						.verify(alg, &signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)
				},
				13|14 => {
					let alg = if sig.alg == 13 {
						&signature::ECDSA_P256_SHA256_FIXED
					} else {
						&signature::ECDSA_P384_SHA384_FIXED
					};

					// Add 0x4 identifier to the ECDSA pubkey as expected by ring.
					let mut key = Vec::with_capacity(dnskey.pubkey.len() + 1);
					key.push(0x4);
					key.extend_from_slice(&dnskey.pubkey);

					signature::UnparsedPublicKey::new(alg, &key)
						.verify(&signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)
				},
				15 => {
					signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)
						.verify(&signed_data, &sig.signature)
						.map_err(|_| ValidationError::Invalid)
				},
				_ => return Err(ValidationError::UnsupportedAlgorithm),
			};
""", """			let sig_validation = match sig.alg {
				8 => verify_rsa(&signature::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY, dnskey, &signed_data, sig),
				10 => verify_rsa(&signature::RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY, dnskey, &signed_data, sig),
				13|14 => {
					// Add 0x4 identifier to the ECDSA pubkey as expected by ring.
					let key = [&[0x4][..], &dnskey.pubkey[..]].concat();
					let res = if sig.alg == 13 {
						signature::UnparsedPublicKey::new(&signature::ECDSA_P256_SHA256_FIXED, &key)
							.verify(&signed_data, &sig.signature)
					} else {
						signature::UnparsedPublicKey::new(&signature::ECDSA_P384_SHA384_FIXED, &key)
							.verify(&signed_data, &sig.signature)
					};
					res.map_err(|_| ValidationError::Invalid)
				},
				15 => signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)
					.verify(&signed_data, &sig.signature)
					.map_err(|_| ValidationError::Invalid),
				_ => Err(ValidationError::UnsupportedAlgorithm),
			};
"""), ("fn verify_rrsig<'a,", """fn verify_rsa(alg: &'static signature::RsaParameters, dnskey: &DnsKey, signed_data: &[u8], sig: &RRSig) -> Result<(), ValidationError> {
	let public_key = bytes_to_rsa_pk(&dnskey.pubkey).map_err(|()| ValidationError::Invalid)?;
	public_key.verify(alg, signed_data, &sig.signature).map_err(|_| ValidationError::Invalid)
}

fn verify_rrsig<'a,"""))

vrs('eq4-ownername', ("""				let record_labels = record.name().labels() as usize;
				let labels = sig.labels.into();
""", ""), ("""				if record.ty() != NSec::TYPE && record_labels != labels {
					if record_labels < labels { return Err(ValidationError::Invalid); }
					let signed_name = record.name().trailing_n_labels(sig.labels);
					debug_assert!(signed_name.is_some());
					if let Some(name) = signed_name {
						signed_data.extend_from_slice(b"\\x01*");
						write_name(&mut signed_data, name);
					} else { return Err(ValidationError::Invalid); }
				} else {
					write_name(&mut signed_data, record.name());
				}
""", """				if record.ty() == NSec::TYPE || record.name().labels() == sig.labels {
					write_name(&mut signed_data, record.name());
				} else {
					match record.name().trailing_n_labels(sig.labels) {
						Some(name) => {
							signed_data.extend_from_slice(&[1, b'*']);
							write_name(&mut signed_data, name);
						},
						None => return Err(ValidationError::Invalid),
					}
				}
"""))

vrs('eq4-recbytes', ("""				signed_data.extend_from_slice(&record.ty().to_be_bytes());
				signed_data.extend_from_slice(&1u16.to_be_bytes()); // The INternet class
				signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());
				record.write_u16_len_prefixed_data(&mut signed_data);
""", """				let mut tail = Vec::new();
				tail.extend_from_slice(&sig.ty.to_be_bytes());
				tail.extend_from_slice(&[0, 1]); // The INternet class
				tail.extend_from_slice(&sig.orig_ttl.to_be_bytes());
				record.write_u16_len_prefixed_data(&mut tail);
				signed_data.append(&mut tail);
"""))

vrs('eq4-sortbykey', ("""			records.sort_by_cached_key(|record| {
				let mut data = Vec::new();
				record.write_u16_len_prefixed_data(&mut data);
				data.split_off(2)
			});
""", """			let rdata = |record: &&RR| -> Vec<u8> {
				let mut data = Vec::new();
				record.write_u16_len_prefixed_data(&mut data);
				data[2..].to_vec()
			};
			records.sort_by(|a, b| rdata(a).cmp(&rdata(b)));
"""))

# ---- keys
vrs('eq4-dsscan2', ("""	let mut had_known_digest_type = false;
	let mut had_ds = false;
	for ds in dses.clone() {
		had_ds = true;
		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
			had_known_digest_type = true;
			break;
		}
	}
	if !had_ds { return Err(ValidationError::Invalid); }
	if !had_known_digest_type { return Err(ValidationError::UnsupportedAlgorithm); }
""", """	if dses.clone().next().is_none() { return Err(ValidationError::Invalid); }
	if !dses.clone().any(|ds| matches!(ds.digest_type, 1 | 2 | 4)) {
		return Err(ValidationError::UnsupportedAlgorithm);
	}
"""))

vrs('eq4-keyloop', ("""	for dnskey in records.iter() {
		// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
		for ds in dses.clone() {
			if ds.alg != dnskey.alg { continue; }
			if dnskey.key_tag() == ds.key_tag {
				let mut ctx = match ds.digest_type {
					1 if trust_sha1 => crypto::hash::Hasher::sha1(),
					2 => crypto::hash::Hasher::sha256(),
					// TODO: 4 => crypto::hash::Hasher::sha384(),
					_ => continue,
				};
				write_name(&mut ctx, &dnskey.name);
				ctx.update(&dnskey.flags.to_be_bytes());
				ctx.update(&dnskey.protocol.to_be_bytes());
				ctx.update(&dnskey.alg.to_be_bytes());
				ctx.update(&dnskey.pubkey);
				let hash = ctx.finish();
				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
					break;
				}
			}
		}
	}
""", """	// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
	let trust_sha1 = !dses.clone().any(|ds| ds.digest_type == 2 || ds.digest_type == 4);
	for dnskey in records.iter().copied() {
		let tag = dnskey.key_tag();
		let is_trusted = dses.clone()
			.filter(|ds| ds.alg == dnskey.alg && ds.key_tag == tag)
			.any(|ds| {
				let mut ctx = match ds.digest_type {
					1 => if trust_sha1 { crypto::hash::Hasher::sha1() } else { return false },
					2 => crypto::hash::Hasher::sha256(),
					_ => return false,
				};
				write_name(&mut ctx, &dnskey.name);
				ctx.update(&dnskey.flags.to_be_bytes());
				ctx.update(&[dnskey.protocol, dnskey.alg]);
				ctx.update(&dnskey.pubkey);
				ctx.finish().as_ref() == &ds.digest[..]
			});
		if is_trusted { validated_dnskeys.push(dnskey); }
	}
"""))

vrs('eq4-sigscan', ("""	let mut found_unsupported_alg = false;
	for sig in sigs {
		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
			Ok(()) => return Ok(sig),
			Err(ValidationError::UnsupportedAlgorithm) => {
				// There may be redundant signatures by different keys, where one we don't
				// supprt and another we do. Ignore ones we don't support, but if there are
				// no more, return UnsupportedAlgorithm
				found_unsupported_alg = true;
			},
			Err(ValidationError::Invalid) => {
				// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
				return Err(ValidationError::Invalid);
			},
		}
	}

	if found_unsupported_alg {
		Err(ValidationError::UnsupportedAlgorithm)
	} else {
		Err(ValidationError::Invalid)
	}
""", """	let mut failure = ValidationError::Invalid;
	for sig in sigs {
		let res = verify_rrsig(sig, validated_dnskeys.iter().copied(), records.clone());
		match res {
			Ok(()) => return Ok(sig),
			Err(ValidationError::Invalid) => return Err(ValidationError::Invalid),
			Err(ValidationError::UnsupportedAlgorithm) => failure = ValidationError::UnsupportedAlgorithm,
		}
	}
	Err(failure)
"""))

# ---- names and times
vrs('eq4-inzone', ("""	if zone == "." { return true; }
	match name.strip_suffix(zone) {
		Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),
		None => false,
	}
""", """	if zone == "." || name == zone { return true; }
	name.len() > zone.len() && name.ends_with(zone) && name.as_bytes()[name.len() - zone.len() - 1] == b'.'
"""))
vrs('eq4-inzone2', ("""	if zone == "." { return true; }
	match name.strip_suffix(zone) {
		Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),
		None => false,
	}
""", """	zone == "." || name.strip_suffix(zone).map_or(false, |prefix| prefix.is_empty() || prefix.ends_with("."))
"""))
vrs('eq4-time', ("""	if time < 60*60*24*365*27 {
		(time as u64) + (u32::MAX as u64) + 1
	} else {
		time.into()
	}
""", """	const CUTOFF: u32 = 27 * 365 * 24 * 60 * 60;
	let wrapped = if time < CUTOFF { 1u64 << 32 } else { 0 };
	wrapped + u64::from(time)
"""))
vrs('eq4-rsapk', ("""	let mut pos = 0;
	let exponent_length;
	if pubkey[0] == 0 {
		exponent_length = ((pubkey[1] as usize) << 8) | (pubkey[2] as usize);
		pos += 3;
	} else {
		exponent_length = pubkey[0] as usize;
		pos += 1;
	}

	if pubkey.len() <= pos + exponent_length { return Err(()); }
	Ok(signature::RsaPublicKeyComponents {
		n: &pubkey[pos + exponent_length..],
		e: &pubkey[pos..pos + exponent_length]
	})
""", """	let (pos, exponent_length) = match pubkey[0] {
		0 => (3, u16::from_be_bytes([pubkey[1], pubkey[2]]) as usize),
		len => (1, len as usize),
	};
	let body = &pubkey[pos..];
	if body.len() <= exponent_length { return Err(()); }
	let (e, n) = body.split_at(exponent_length);
	Ok(signature::RsaPublicKeyComponents { n, e })
"""))

# ---- eq5: records, buffers, server, builder and wasm, rewritten piece by piece
m('eq5-hexfn', '', (R, """		for c in self.data.iter() {
			write!(&mut out, "{:02X}", c)
				.expect("Write to a String shouldn't fail");
		}
		out += "\\"}";
		out
	}
	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
		Ok(TLSA {""", """		push_hex(&mut out, &self.data);
		out + "\\"}"
	}
	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
		Ok(TLSA {"""), (R, """impl StaticRecord for TLSA {""", """fn push_hex(out: &mut String, bytes: &[u8]) {
	for byte in bytes {
		let _ = write!(out, "{:02X}", byte);
	}
}
impl StaticRecord for TLSA {"""))
m('eq5-hexdigits', '', (R, """		for c in self.digest.iter() {
			write!(&mut out, "{:02X}", c)
				.expect("Write to a String shouldn't fail");
		}
""", """		const DIGITS: &[u8; 16] = b"0123456789ABCDEF";
		for c in self.digest.iter() {
			out.push(DIGITS[(*c >> 4) as usize] as char);
			out.push(DIGITS[(*c & 0xf) as usize] as char);
		}
"""))
m('eq5-arms', '', (R, """		match self {
			RR::A(rr) => &rr.name,
			RR::AAAA(rr) => &rr.name,
			RR::NS(rr) => &rr.name,
			RR::Txt(rr) => &rr.name,
			RR::CName(rr) => &rr.name,
			RR::DName(rr) => &rr.name,
			RR::TLSA(rr) => &rr.name,
			RR::DnsKey(rr) => &rr.name,
			RR::DS(rr) => &rr.name,
			RR::RRSig(rr) => &rr.name,
			RR::NSec(rr) => &rr.name,
			RR::NSec3(rr) => &rr.name,
		}
""", """		match self {
			RR::A(A { name, .. })|RR::AAAA(AAAA { name, .. })|RR::NS(NS { name, .. })|
			RR::Txt(Txt { name, .. })|RR::CName(CName { name, .. })|RR::DName(DName { name, .. })|
			RR::TLSA(TLSA { name, .. })|RR::DnsKey(DnsKey { name, .. })|RR::DS(DS { name, .. })|
			RR::RRSig(RRSig { name, .. })|RR::NSec(NSec { name, .. })|RR::NSec3(NSec3 { name, .. }) => name,
		}
"""))
m('eq5-dispatch', '', (R, """		match self {
			RR::A(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::AAAA(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::NS(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::Txt(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::CName(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::DName(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::TLSA(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::DnsKey(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::DS(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::RRSig(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::NSec(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
			RR::NSec3(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),
		}
""", """		let rec: &dyn Record_ = match self {
			RR::A(rr) => rr,
			RR::AAAA(rr) => rr,
			RR::NS(rr) => rr,
			RR::Txt(rr) => rr,
			RR::CName(rr) => rr,
			RR::DName(rr) => rr,
			RR::TLSA(rr) => rr,
			RR::DnsKey(rr) => rr,
			RR::DS(rr) => rr,
			RR::RRSig(rr) => rr,
			RR::NSec(rr) => rr,
			RR::NSec3(rr) => rr,
		};
		rec.write_data(out)
"""), (R, """pub(crate) trait StaticRecord : Ord + Sized {""", """trait Record_ { fn write_data(&self, out: &mut Vec<u8>); }
impl<T: StaticRecord> Record_ for T {
	fn write_data(&self, out: &mut Vec<u8>) { StaticRecord::write_u16_len_prefixed_data(self, out) }
}
pub(crate) trait StaticRecord : Ord + Sized {"""))
m('eq5-atry', '', (R, """		if data.len() != 4 { return Err(()); }
		let mut address = [0; 4];
		address.copy_from_slice(&data);
		Ok(A { name, address })
""", """		let address: [u8; 4] = data.try_into().map_err(|_| ())?;
		Ok(A { name, address })
"""))
m('eq5-amatch', '', (R, """		if data.len() != 4 { return Err(()); }
		let mut address = [0; 4];
		address.copy_from_slice(&data);
		Ok(A { name, address })
""", """		match *data {
			[a, b, c, d] => Ok(A { name, address: [a, b, c, d] }),
			_ => Err(()),
		}
"""))
m('eq5-aaaafrom', '', (R, """		if data.len() != 16 { return Err(()); }
		let mut address = [0; 16];
		address.copy_from_slice(&data);
		Ok(AAAA { name, address })
""", """		match <[u8; 16]>::try_from(data) {
			Ok(address) => Ok(AAAA { name, address }),
			Err(_) => Err(()),
		}
"""))
m('eq5-tlsaslice', '', (R, """		Ok(TLSA {
			name, cert_usage: read_u8(&mut data)?, selector: read_u8(&mut data)?,
			data_ty: read_u8(&mut data)?, data: data.to_vec(),
		})
""", """		if data.len() < 3 { return Err(()); }
		let (fixed, rest) = data.split_at(3);
		data = rest;
		Ok(TLSA {
			name, cert_usage: fixed[0], selector: fixed[1], data_ty: fixed[2], data: data.to_vec(),
		})
"""))
m('eq5-tlsapat', '', (R, """		Ok(TLSA {
			name, cert_usage: read_u8(&mut data)?, selector: read_u8(&mut data)?,
			data_ty: read_u8(&mut data)?, data: data.to_vec(),
		})
""", """		let cert_usage = read_u8(&mut data)?;
		let selector = read_u8(&mut data)?;
		let data_ty = read_u8(&mut data)?;
		let mut contents = Vec::with_capacity(data.len());
		contents.extend_from_slice(data);
		Ok(TLSA { name, cert_usage, selector, data_ty, data: contents })
"""))
m('eq5-dslocals', '', (R, """		Ok(DS {
			name, key_tag: read_u16(&mut data)?, alg: read_u8(&mut data)?,
			digest_type: read_u8(&mut data)?, digest: data.to_vec(),
		})
""", """		let inp = &mut data;
		let (key_tag, alg, digest_type) = (read_u16(inp)?, read_u8(inp)?, read_u8(inp)?);
		Ok(DS { digest: inp.to_vec(), name, key_tag, alg, digest_type })
"""))
m('eq5-dnskeywrite', '', (R, """		let len = 2 + 1 + 1 + self.pubkey.len();
		out.extend_from_slice(&(len as u16).to_be_bytes());
		out.extend_from_slice(&self.flags.to_be_bytes());
		out.extend_from_slice(&self.protocol.to_be_bytes());
		out.extend_from_slice(&self.alg.to_be_bytes());
		out.extend_from_slice(&self.pubkey);
""", """		let mut data = Vec::with_capacity(4 + self.pubkey.len());
		data.extend_from_slice(&self.flags.to_be_bytes());
		data.push(self.protocol);
		data.push(self.alg);
		data.extend_from_slice(&self.pubkey);
		out.extend_from_slice(&(data.len() as u16).to_be_bytes());
		out.append(&mut data);
"""))
m('eq5-backpatch', '', (R, """		let len = 2 + 1 + 1 + self.digest.len();
		out.extend_from_slice(&(len as u16).to_be_bytes());
		out.extend_from_slice(&self.key_tag.to_be_bytes());
		out.extend_from_slice(&self.alg.to_be_bytes());
		out.extend_from_slice(&self.digest_type.to_be_bytes());
		out.extend_from_slice(&self.digest);
""", """		let start = out.len();
		out.extend_from_slice(&[0, 0]);
		out.extend_from_slice(&self.key_tag.to_be_bytes());
		out.extend_from_slice(&self.alg.to_be_bytes());
		out.extend_from_slice(&self.digest_type.to_be_bytes());
		out.extend_from_slice(&self.digest);
		let len = (out.len() - start - 2) as u16;
		out[start..start + 2].copy_from_slice(&len.to_be_bytes());
"""))
m('eq5-tlsapush', '', (R, """		let len = 3 + self.data.len();
		out.extend_from_slice(&(len as u16).to_be_bytes());
		out.extend_from_slice(&[self.cert_usage, self.selector, self.data_ty]);
		out.extend_from_slice(&self.data);
""", """		let len = self.data.len() as u16 + 3;
		out.extend(len.to_be_bytes().iter().copied());
		out.push(self.cert_usage);
		out.push(self.selector);
		out.push(self.data_ty);
		out.extend(self.data.iter().copied());
"""))
m('eq5-nameread', '', (R, """		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() { return Err(()); }
		Ok(res)
""", """		let canonical_name = read_only_name(data, wire_packet)?;
		Ok(CName { name, canonical_name })
"""), (R, """		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() { return Err(()); }
		Ok(res)
""", """		let delegation_name = read_only_name(data, wire_packet)?;
		Ok(DName { name, delegation_name })
"""), (R, """		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() { return Err(()); }
		Ok(res)
""", """		let name_server = read_only_name(data, wire_packet)?;
		Ok(NS { name, name_server })
"""), (R, """pub(crate) trait StaticRecord : Ord + Sized {""", """/// Reads record data which consists of exactly one name
fn read_only_name(mut data: &[u8], wire_packet: &[u8]) -> Result<Name, ()> {
	let name = read_wire_packet_name(&mut data, wire_packet)?;
	if data.is_empty() { Ok(name) } else { Err(()) }
}
pub(crate) trait StaticRecord : Ord + Sized {"""))
m('eq5-namewrite', '', (R, """		let len: u16 = name_len(&self.canonical_name);
		out.extend_from_slice(&len.to_be_bytes());
		write_name(out, &self.canonical_name);
""", """		write_only_name(&self.canonical_name, out);
"""), (R, """		let len: u16 = name_len(&self.delegation_name);
		out.extend_from_slice(&len.to_be_bytes());
		write_name(out, &self.delegation_name);
""", """		write_only_name(&self.delegation_name, out);
"""), (R, """		out.extend_from_slice(&name_len(&self.name_server).to_be_bytes());
		write_name(out, &self.name_server);
""", """		write_only_name(&self.name_server, out);
"""), (R, """pub(crate) trait StaticRecord : Ord + Sized {""", """fn write_only_name(name: &Name, out: &mut Vec<u8>) {
	let len = name_len(name);
	out.push((len >> 8) as u8);
	out.push(len as u8);
	write_name(out, name);
}
pub(crate) trait StaticRecord : Ord + Sized {"""))
m('eq5-rrsigread', '', (R, """			name, ty: read_u16(&mut data)?, alg: read_u8(&mut data)?,
			labels: read_u8(&mut data)?, orig_ttl: read_u32(&mut data)?,
			expiration: read_u32(&mut data)?, inception: read_u32(&mut data)?,
			key_tag: read_u16(&mut data)?,
			key_name: read_wire_packet_name(&mut data, wire_packet)?,
			signature: data.to_vec(),
""", """			name,
			ty: read_u16(&mut data)?,
			alg: read_u8(&mut data)?,
			labels: read_u8(&mut data)?,
			orig_ttl: read_u32(&mut data)?,
			expiration: read_u32(&mut data)?,
			inception: read_u32(&mut data)?,
			key_tag: read_u16(&mut data)?,
			key_name: read_wire_packet_name(&mut data, wire_packet)?,
			signature: data.into(),
"""))
m('eq5-rrsigwrite', '', (R, """		out.extend_from_slice(&self.ty.to_be_bytes());
		out.extend_from_slice(&self.alg.to_be_bytes());
		out.extend_from_slice(&self.labels.to_be_bytes());
		out.extend_from_slice(&self.orig_ttl.to_be_bytes());
		out.extend_from_slice(&self.expiration.to_be_bytes());
		out.extend_from_slice(&self.inception.to_be_bytes());
		out.extend_from_slice(&self.key_tag.to_be_bytes());
		write_name(out, &self.key_name);
""", """		out.extend_from_slice(&self.ty.to_be_bytes());
		out.extend_from_slice(&[self.alg, self.labels]);
		for field in [self.orig_ttl, self.expiration, self.inception].iter() {
			out.extend_from_slice(&field.to_be_bytes());
		}
		out.extend_from_slice(&self.key_tag.to_be_bytes());
		write_name(out, &self.key_name);
"""))
m('eq5-nsec3read', '', (R, """		let res = NSec3 {
			name, hash_algo: read_u8(&mut data)?, flags: read_u8(&mut data)?,
			hash_iterations: read_u16(&mut data)?, salt: read_u8_len_prefixed_bytes(&mut data)?,
			next_name_hash: read_u8_len_prefixed_bytes(&mut data)?,
			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),
		};
		debug_assert!(data.is_empty());
		Ok(res)
""", """		let hash_algo = read_u8(&mut data)?;
		let flags = read_u8(&mut data)?;
		let hash_iterations = read_u16(&mut data)?;
		let salt = read_u8_len_prefixed_bytes(&mut data)?;
		let next_name_hash = read_u8_len_prefixed_bytes(&mut data)?;
		let types = read_nsec_types_bitmap(&mut data).map(NSecTypeMask)?;
		Ok(NSec3 { name, hash_algo, flags, hash_iterations, salt, next_name_hash, types })
"""))
m('eq5-nsec3write', '', (R, """		out.extend_from_slice(&(self.salt.len() as u8).to_be_bytes());
		out.extend_from_slice(&self.salt);
		out.extend_from_slice(&(self.next_name_hash.len() as u8).to_be_bytes());
		out.extend_from_slice(&self.next_name_hash);
		write_nsec_types_bitmap(out, &self.types.0);
""", """		for bytes in [&self.salt, &self.next_name_hash].iter() {
			out.push(bytes.len() as u8);
			out.extend_from_slice(bytes);
		}
		write_nsec_types_bitmap(out, &self.types.0);
"""))
m('eq5-nsec3hash', '', (R, """		out.extend_from_slice(&(self.salt.len() as u8).to_be_bytes());
		out.extend_from_slice(&self.salt);
		out.extend_from_slice(&(self.next_name_hash.len() as u8).to_be_bytes());
		out.extend_from_slice(&self.next_name_hash);
		write_nsec_types_bitmap(out, &self.types.0);
""", """		write_u8_len_prefixed(out, &self.salt);
		write_u8_len_prefixed(out, &self.next_name_hash);
		write_nsec_types_bitmap(out, &self.types.0);
"""), (R, """impl StaticRecord for NSec3 {""", """fn write_u8_len_prefixed(out: &mut Vec<u8>, bytes: &[u8]) {
	out.push(bytes.len() as u8);
	out.extend_from_slice(bytes);
}
impl StaticRecord for NSec3 {"""))
m('eq5-prefixed', '', (S, """	let len = *inp.get(0).ok_or(())?;
	*inp = &inp[1..];
	if inp.len() < len.into() { return Err(()); }
	let mut res = Vec::with_capacity(len.into());
	res.extend_from_slice(&inp[..len.into()]);
	*inp = &inp[len.into()..];
	Ok(res)
""", """	let len = read_u8(inp)? as usize;
	let bytes = inp.get(..len).ok_or(())?;
	*inp = &inp[len..];
	Ok(bytes.to_vec())
"""))
m('eq5-typename', '', (R, """					match RR::ty_to_rr_name(ty) {
						Some(name) => write!(s, "\\"{}\\"", name).expect("Writes to a string shouldn't fail"),
						_ => write!(s, "{}", ty).expect("Writes to a string shouldn't fail"),
					}
""", """					if let Some(name) = RR::ty_to_rr_name(ty) {
						s.push('"');
						s.push_str(name);
						s.push('"');
					} else {
						s.push_str(&ty.to_string());
					}
"""), (R, """use alloc::string::String;""", """use alloc::string::{String, ToString};"""))
m('eq5-contains', '', (R, """		let f = self.0[(ty >> 3) as usize];
		// DNSSEC's bit fields are in wire order, so the high bit is type 0, etc.
		f & (1 << (7 - (ty % 8))) != 0
""", """		let (idx, bit) = ((ty / 8) as usize, ty & 7);
		self.0[idx] & (0x80 >> bit) > 0
"""))
m('eq5-namebytes', '', (R, """		if s.is_empty() { return Err(()); }
		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
		if s.len() > 255 { return Err(()); }
""", """		if !s.ends_with('.') || s.len() > 255 { return Err(()); }
"""))
m('eq5-writer', '', (S, """		for label in canonical_name.split(".") {
			out.write(&(label.len() as u8).to_be_bytes());
			out.write(label.as_bytes());
		}
""", """		canonical_name.split('.').for_each(|label| {
			out.write(&[label.len() as u8]);
			out.write(label.as_bytes());
		});
"""))
m('eq5-namelen', '', (S, """		let mut res = 0;
		for label in name.split(".") {
			res += 1 + label.len();
		}
		res as u16
""", """		name.split('.').map(|label| 1 + label.len() as u16).sum()
"""))
m('eq5-rrstream', '', (S, """	let mut res = Vec::with_capacity(32);
	while !inp.is_empty() {
		res.push(parse_rr(&mut inp)?);
	}
	Ok(res)
""", """	let mut res = Vec::new();
	loop {
		if inp.is_empty() { return Ok(res); }
		let (rr, _ttl) = parse_wire_packet_rr(&mut inp, &[])?;
		res.push(rr);
	}
"""))
m('eq5-class', '', (S, """	let name = read_wire_packet_name(inp, wire_packet)?;
	let ty = read_u16(inp)?;
	let class = read_u16(inp)?;
	if class != 1 { return Err(()); } // We only support the INternet
	let ttl = read_u32(inp)?;
	let data_len = read_u16(inp)? as usize;
	if inp.len() < data_len { return Err(()); }
	let data = &inp[..data_len];
	*inp = &inp[data_len..];
""", """	const CLASS_IN: u16 = 1;
	let name = read_wire_packet_name(inp, wire_packet)?;
	let (ty, class, ttl, data_len) = (read_u16(inp)?, read_u16(inp)?, read_u32(inp)?, read_u16(inp)? as usize);
	if class != CLASS_IN || data_len > inp.len() { return Err(()); }
	let (data, rest) = inp.split_at(data_len);
	*inp = rest;
"""))
m('eq5-bitmaplen', '', (S, """	let mut total_len = 0;
	for flags in types.chunks(32) {
		debug_assert_eq!(flags.len(), 32);
		if flags != &[0; 32] {
			total_len += 3 + flags.iter().rposition(|flag| *flag != 0)
				.unwrap_or_else(|| { debug_assert!(false); 0 }) as u16;
		}
	}
	total_len
""", """	let mut total_len = 0;
	for flags in types.chunks(32) {
		if let Some(last) = flags.iter().rposition(|flag| *flag != 0) {
			total_len += last as u16 + 3;
		}
	}
	total_len
"""))
m('eq5-bitmapw', '', (S, """		debug_assert_eq!(flags.len(), 32);
		if flags != &[0; 32] {
			let last_nonzero_idx = flags.iter().rposition(|flag| *flag != 0)
				.unwrap_or_else(|| { debug_assert!(false); 0 });
			out.write(&(idx as u8).to_be_bytes());
			out.write(&(last_nonzero_idx as u8 + 1).to_be_bytes());
			out.write(&flags[..last_nonzero_idx + 1]);
		}
""", """		let used = match flags.iter().rposition(|flag| *flag != 0) {
			Some(last) => &flags[..=last],
			None => continue,
		};
		out.write(&[idx as u8, used.len() as u8]);
		out.write(used);
"""))
m('eq5-respflags', '', (Q, """	let flags = read_u16(&mut read)?;
	if flags & 0b1000_0000_0000_0000 == 0 {
		return Err(());
	}
	if flags & 0b0111_1010_0000_1111 != 0 {
		return Err(());
	}
	if flags & 0b10_0000 == 0 {
		return Err(());
	}
	let questions = read_u16(&mut read)?;
	if questions != 1 { return Err(()); }
	let answers = read_u16(&mut read)?;
	if answers == 0 { return Err(()); }
	let authorities = read_u16(&mut read)?;
	let _additional = read_u16(&mut read)?;

	for _ in 0..questions {
		read_wire_packet_name(&mut read, resp)?;
		read_u16(&mut read)?; // type
		read_u16(&mut read)?; // class
	}
""", """	let flags = read_u16(&mut read)?;
	let (questions, answers, authorities, _additional) =
		(read_u16(&mut read)?, read_u16(&mut read)?, read_u16(&mut read)?, read_u16(&mut read)?);
	// QR and AD have to be set, the opcode, TC, Z and the response code must be zero.
	if flags & 0xfa2f != 0x8020 { return Err(()); }
	if questions != 1 || answers == 0 { return Err(()); }

	let _qname = read_wire_packet_name(&mut read, resp)?;
	let (_qtype, _qclass) = (read_u16(&mut read)?, read_u16(&mut read)?);
"""))
m('eq5-isdenial', '', (Q, """		match &rr {
			RR::RRSig(rrsig) => {
				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {
					continue;
				}
			},
			RR::NSec(_)|RR::NSec3(_) => {},
			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
""", """		if !is_denial(&rr) { continue; }
		write_rr(&rr, ttl, proof);
		min_ttl = min_ttl.min(ttl);
		if let RR::RRSig(RRSig { key_name, .. }) = rr { rrsig_key_names.push(key_name); }
"""), (Q, """fn handle_response(resp""", """fn is_denial(rr: &RR) -> bool {
	let ty = match rr {
		RR::RRSig(sig) => sig.ty,
		_ => Record::ty(rr),
	};
	ty == NSec::TYPE || ty == NSec3::TYPE
}

fn handle_response(resp"""))
m('eq5-matches', '', (Q, """		match &rr {
			RR::RRSig(rrsig) => {
				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {
					continue;
				}
			},
			RR::NSec(_)|RR::NSec3(_) => {},
			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
""", """		match rr {
			RR::RRSig(ref rrsig) if matches!(rrsig.ty, NSec::TYPE|NSec3::TYPE) => {
				rrsig_key_names.push(rrsig.key_name.clone());
			},
			RR::NSec(_)|RR::NSec3(_) => {},
			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		if ttl < min_ttl { min_ttl = ttl; }
"""))
m('eq5-sections', '', (Q, """	for _ in 0..answers {
		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}
""", """	let mut add_record = |rr: RR, ttl: u32| {
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	};
	for _ in 0..answers {
		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		add_record(rr, ttl);
	}
"""), (Q, """			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}
""", """			_ => continue,
		}
		add_record(rr, ttl);
	}
"""))
m('eq5-askfn', '', (Q, """		for key_name in rrsig_key_names.drain(..) {
			if !self.dnskeys_requested.contains(&key_name) {
				new_queries.push(build_query(&key_name, DnsKey::TYPE));
				self.pending_queries += 1;
				self.queries_made += 1;
				self.dnskeys_requested.push(key_name.clone());

				if key_name.as_str() != "." {
					new_queries.push(build_query(&key_name, DS::TYPE));
					self.pending_queries += 1;
					self.queries_made += 1;
				}
			}
		}
""", """		for key_name in rrsig_key_names {
			if self.dnskeys_requested.iter().any(|name| *name == key_name) { continue; }
			new_queries.push(self.ask(&key_name, DnsKey::TYPE));
			if key_name.as_str() != "." {
				new_queries.push(self.ask(&key_name, DS::TYPE));
			}
			self.dnskeys_requested.push(key_name);
		}
"""), (Q, """	/// Processes a query response from the recursive resolver, returning""", """	fn ask(&mut self, name: &Name, ty: u16) -> QueryBuf {
		self.pending_queries += 1;
		self.queries_made += 1;
		build_query(name, ty)
	}

	/// Processes a query response from the recursive resolver, returning"""))
m('eq5-counts', '', (Q, """		if self.queries_made <= MAX_REQUESTS {
			Ok(new_queries)
		} else {
			Ok(Vec::new())
		}
""", """		if self.queries_made > MAX_REQUESTS { new_queries.clear(); }
		Ok(new_queries)
"""))
m('eq5-finish', '', (Q, """		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {
			Err(())
		} else {
			Ok((self.proof, self.min_ttl))
		}
""", """		let ProofBuilder { proof, min_ttl, pending_queries, queries_made, .. } = self;
		match pending_queries {
			0 if queries_made <= MAX_REQUESTS => Ok((proof, min_ttl)),
			_ => Err(()),
		}
"""))
m('eq5-isheap', '', (Q, """	pub fn into_vec(self) -> Vec<u8> {
		if self.len > STACK_BUF_LIMIT {
			self.heap_buf
		} else {
			self.buf[..self.len as usize].to_vec()
		}
	}
""", """	pub fn into_vec(self) -> Vec<u8> {
		if self.is_heap() { return self.heap_buf; }
		self.to_vec()
	}
	fn is_heap(&self) -> bool { self.len > STACK_BUF_LIMIT }
"""), (Q, """	fn deref(&self) -> &[u8] {
		if self.len > STACK_BUF_LIMIT {
			&self.heap_buf
		} else {
			&self.buf[..self.len as usize]
		}
""", """	fn deref(&self) -> &[u8] {
		match self.is_heap() {
			true => self.heap_buf.as_slice(),
			false => self.buf.split_at(self.len.into()).0,
		}
"""))
m('eq5-buildq', '', (Q, """	query.extend_from_slice(&[0, 0, 0x29]); // . OPT
	query.extend_from_slice(&0u16.to_be_bytes()); // 0 UDP payload size
	query.extend_from_slice(&[0, 0]); // EDNS version 0
	query.extend_from_slice(&0x8000u16.to_be_bytes()); // Accept DNSSEC RRs
	query.extend_from_slice(&0u16.to_be_bytes()); // No additional data
	query
""", """	write_opt(&mut query);
	query
"""), (Q, """fn build_query(""", """fn write_opt(query: &mut QueryBuf) {
	const OPT: u16 = 41;
	const DNSSEC_OK: u16 = 1 << 15;
	query.extend_from_slice(&[0]); // .
	query.extend_from_slice(&OPT.to_be_bytes());
	query.extend_from_slice(&[0; 4]); // 0 UDP payload size, EDNS version 0
	query.extend_from_slice(&DNSSEC_OK.to_be_bytes());
	query.extend_from_slice(&[0; 2]); // No additional data
}

fn build_query("""))
m('eq5-b32chk', '', (B, """	match data.len() % 8 { 1|3|6 => return Err(()), _ => {} }
	Ok(decode_data(data, RFC4648_INV_ALPHABET)?)
""", """	if let 1|3|6 = data.len() & 7 { return Err(()); }
	decode_data(data, RFC4648_INV_ALPHABET)
"""))
m('eq5-b32tbl', '', (B, """			match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {
				Some(&-1) | None => return Err(()),
				Some(&value) => buf[i] = value as u8,
			};
""", """			let idx = usize::from(c.to_ascii_uppercase().wrapping_sub(b'0'));
			let value = *alphabet.get(idx).ok_or(())?;
			if value < 0 { return Err(()); }
			buf[i] = value as u8;
"""))
m('eq5-wextend', '', (W, """		if let Ok(queries) = proof_builder.0.process_response(&answer) {
			for query in queries {
				proof_builder.1.push_back(query);
			}
		}
""", """		let WASMProofBuilder(builder, pending) = proof_builder;
		pending.extend(builder.process_response(&answer).unwrap_or_default());
"""))
m('eq5-wmap', '', (W, """	if let Some(query) = proof_builder.1.pop_front() {
		Some(query.into_vec())
	} else {
		None
	}
""", """	let query = proof_builder.1.pop_front()?;
	Some(query.into_vec())
"""))
m('eq5-wand', '', (W, """	if let Ok(qname) = name.try_into() {
		let (builder, initial_query) = ProofBuilder::new(&qname, ty);
		let mut queries = VecDeque::with_capacity(4);
		queries.push_back(initial_query);
		Some(WASMProofBuilder(builder, queries))
	} else {
		None
	}
""", """	let qname: dnssec_prover::rr::Name = name.try_into().ok()?;
	let (builder, initial_query) = ProofBuilder::new(&qname, ty);
	Some(WASMProofBuilder(builder, std::iter::once(initial_query).collect()))
"""))
m('eq5-wtry', '', (W, """	if response.len() <= u16::MAX as usize {
		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
		answer.copy_from_slice(&response);
""", """	if let Ok(len) = u16::try_from(response.len()) {
		let mut answer = QueryBuf::new_zeroed(len);
		answer.copy_from_slice(&response);
"""), (W, "			for query in queries {\n				proof_builder.1.push_back(query);\n			}\n", "			proof_builder.1.extend(queries);\n"))
m('eq5-wproof', '', (W, """	proof_builder.0.finish_proof().ok().map(|(proof, _ttl)| proof)
""", """	match proof_builder.0.finish_proof() {
		Ok((proof, _)) => Some(proof),
		Err(()) => None,
	}
"""))
m('eq5-wjson', '', (W, """	for (idx, rr) in verified_rrs.verified_rrs.iter().enumerate() {
		write!(&mut resp, "{}{}", if idx != 0 { ", " } else { "" }, rr.json())
			.expect("Write to a String shouldn't fail");
	}
	resp += "]}";
	Ok(resp)
""", """	let mut sep = "";
	for rr in verified_rrs.verified_rrs.iter() {
		resp.push_str(sep);
		resp.push_str(&rr.json());
		sep = ", ";
	}
	resp.push_str("]}");
	Ok(resp)
"""))
m('eq5-hparse', '', (H, """					let (mut d, mut t) = ("", "");
					for arg in path[PATH_PFX.len()..].split("&") {
						if let Some((k, v)) = arg.split_once("=") {
							if k == "d" {
								d = v;
							} else if k == "t" {
								t = v;
							}
						} else { break 'ret_err; }
					}

					if d == "" || t == "" {
""", """					let (d, t) = match parse_args(&path[PATH_PFX.len()..]) {
						Some(args) => args,
						None => break 'ret_err,
					};

					if d.is_empty() || t.is_empty() {
"""), (H, """	pub(super) async fn run_server(""", """	fn parse_args(query: &str) -> Option<(&str, &str)> {
		let (mut d, mut t) = ("", "");
		for arg in query.split('&') {
			let (k, v) = arg.split_once('=')?;
			match k {
				"d" => d = v,
				"t" => t = v,
				_ => {},
			}
		}
		Some((d, t))
	}

	pub(super) async fn run_server("""))
m('eq5-hreq', '', (H, """					let request;
					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {
						if let Some((r, _)) = s.split_once("\\r\\n") {
							request = r;
						} else {
							debug_assert!(false);
							break 'ret_err;
						}
					} else {
						break 'ret_err;
					}
""", """					let request = match std::str::from_utf8(&buf[..buf_pos]).ok().and_then(|s| s.split_once("\\r\\n")) {
						Some((line, _)) => line,
						None => break 'ret_err,
					};
"""))
m('eq5-hparts', '', (H, """					let mut parts = request.split(" ");
					let (verb, path, http_vers);
					if let Some(v) = parts.next() { verb = v; } else { break 'ret_err; }
					if let Some(p) = parts.next() { path = p; } else { break 'ret_err; }
					if let Some(v) = parts.next() { http_vers = v; } else { break 'ret_err; }
					if parts.next().is_some() { break; }
					if verb != "GET" { break; }
					if http_vers != "HTTP/1.1" && http_vers != "HTTP/1.0" { break 'ret_err; }
""", """					let parts: Vec<&str> = request.split(' ').collect();
					let path = match parts[..] {
						["GET", path, "HTTP/1.1"]|["GET", path, "HTTP/1.0"] => path,
						_ => break 'ret_err,
					};
"""))
m('eq5-hpfx', '', (H, """					if !path.starts_with(PATH_PFX) {
						response = ("404 Not Found", "Not Found");
						break 'ret_err;
					}
""", """					let query = match path.strip_prefix(PATH_PFX) {
						Some(query) => query,
						None => {
							response = ("404 Not Found", "Not Found");
							break 'ret_err;
						},
					};
"""), (H, "path[PATH_PFX.len()..].split(\"&\")", "query.split(\"&\")"))
m('eq5-htype', '', (H, """					let proof_res = match t.to_ascii_uppercase().as_str() {
						"TXT" => build_txt_proof_async(resolver_sockaddr, &query_name).await,
						"TLSA" => build_tlsa_proof_async(resolver_sockaddr, &query_name).await,
						"A" => build_a_proof_async(resolver_sockaddr, &query_name).await,
						"AAAA" => build_aaaa_proof_async(resolver_sockaddr, &query_name).await,
						_ => break 'ret_err,
					};
""", """					let proof_res = if t.eq_ignore_ascii_case("txt") {
						build_txt_proof_async(resolver_sockaddr, &query_name).await
					} else if t.eq_ignore_ascii_case("tlsa") {
						build_tlsa_proof_async(resolver_sockaddr, &query_name).await
					} else if t.eq_ignore_ascii_case("a") {
						build_a_proof_async(resolver_sockaddr, &query_name).await
					} else if t.eq_ignore_ascii_case("aaaa") {
						build_aaaa_proof_async(resolver_sockaddr, &query_name).await
					} else { break 'ret_err; };
"""))
m('eq5-hresp', '', (H, """				let _ = socket.write_all(format!(
					"HTTP/1.1 {}\\r\\nContent-Length: {}\\r\\nContent-Type: text/plain\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n{}",
					response.0, response.1.len(), response.1,
				).as_bytes()).await;
""", """				let (status, body) = response;
				let headers = [
					format!("HTTP/1.1 {}", status),
					format!("Content-Length: {}", body.len()),
					"Content-Type: text/plain".to_string(),
					"Access-Control-Allow-Origin: *".to_string(),
				].join("\\r\\n");
				let _ = socket.write_all(format!("{}\\r\\n\\r\\n{}", headers, body).as_bytes()).await;
"""))
m('eq5-hok', '', (H, """					let _ = socket.write_all(
						format!(
							"HTTP/1.1 200 OK\\r\\nContent-Length: {}\\r\\nContent-Type: application/octet-stream\\r\\nCache-Control: public, max-age={}, s-maxage={}\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n",
							proof.len(), cache_ttl, cache_ttl
						).as_bytes()
					).await;
					let _ = socket.write_all(&proof).await;
					return;
""", """					let mut reply = Vec::with_capacity(256 + proof.len());
					reply.extend_from_slice(b"HTTP/1.1 200 OK\\r\\n");
					reply.extend_from_slice(format!("Content-Length: {}\\r\\n", proof.len()).as_bytes());
					reply.extend_from_slice(b"Content-Type: application/octet-stream\\r\\n");
					reply.extend_from_slice(format!("Cache-Control: public, max-age={0}, s-maxage={0}\\r\\n", cache_ttl).as_bytes());
					reply.extend_from_slice(b"Access-Control-Allow-Origin: *\\r\\n\\r\\n");
					reply.extend_from_slice(&proof);
					let _ = socket.write_all(&reply).await;
					return;
"""))
m('eq5-hread', '', (H, """						let read_res = { socket.read(&mut buf[buf_pos..]).await };
						match read_res {
							Ok(0) => return,
							Ok(len) => {
								buf_pos += len;
								for window in buf[..buf_pos].windows(2) {
									if window == b"\\r\\n" { break 'read_req; }
								}
							}
							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},
							Err(_) => return,
						}
""", """						let len = match socket.read(&mut buf[buf_pos..]).await {
							Ok(len) => len,
							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => continue,
							Err(_) => return,
						};
						if len == 0 { return; }
						buf_pos += len;
						if buf[..buf_pos].windows(2).any(|w| w == b"\\r\\n") { break; }
"""))

# ---- a further batch of bugs, written from the statements of the properties
def vb(id, props, *edits):
    m(id, props, *[(V, a, b) for a, b in edits])


vb('b6-sigtake', 'C01', ("match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {",
   "match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().take(64).collect()) {"))
vb('b6-noalg', 'C01', ("if dnskey.alg != sig.alg { continue; }", "if dnskey.alg != sig.alg && sig.alg < 13 { continue; }"))
vb('b6-ksk', 'C01', ("if dnskey.flags & 0b1_0000_0000 == 0 { continue; }", "if dnskey.flags & 0b1_0000_0001 == 0 { continue; }"))
vb('b6-tagmask', 'C01', ("if dnskey.key_tag() == sig.key_tag {", "if dnskey.key_tag() & 0xff == sig.key_tag & 0xff {"))
vb('b6-alglen', 'C02', ("let alg = if sig.alg == 13 {", "let alg = if dnskey.pubkey.len() <= 64 {"))
vb('b6-alg9', 'C02', ("				8|10 => {\n					let alg = if sig.alg == 8 {", "				8..=10 => {\n					let alg = if sig.alg == 8 {"))
vb('b6-ed448', 'C02', ("				15 => {", "				15|16 => {"))
vb('b6-rsaexp', 'C02', ("exponent_length = ((pubkey[1] as usize) << 8) | (pubkey[2] as usize);", "exponent_length = ((pubkey[1] as usize & 0x7f) << 8) | (pubkey[2] as usize);"))
vb('b6-sha1same', 'C02', ("let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);", "let trust_sha1 = dses.clone().filter(|ds| ds.alg == dnskey.alg).all(|ds| ds.digest_type != 2 && ds.digest_type != 4);"))
vb('b6-sha1tag', 'C02', ("let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);", "let trust_sha1 = dses.clone().filter(|ds| ds.key_tag == dnskey.key_tag()).all(|ds| ds.digest_type != 2 && ds.digest_type != 4);"))
vb('b6-digestpre', 'C04', ("if hash.as_ref() == &ds.digest {", "if !ds.digest.is_empty() && hash.as_ref().starts_with(&ds.digest) {"))
vb('b6-digestzip', 'C04', ("if hash.as_ref() == &ds.digest {", "if hash.as_ref().iter().zip(ds.digest.iter()).all(|(a, b)| a == b) {"))
vb('b6-dsroot', 'C04', ("verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?",
   "match verify_dnskeys(dnskey_rrsigs.clone(), next_ds_set.clone().unwrap(), dnskeys.clone().collect()) {\n\t\t\t\tOk(sig) => sig,\n\t\t\t\tErr(_) => verify_dnskeys(dnskey_rrsigs, &root_hints, dnskeys.clone().collect())?,\n\t\t\t}"))
vb('b6-labelpre', 'C03', ("if record.ty() != NSec::TYPE && record_labels != labels {", "if record.ty() != NSec::TYPE && record.ty() != NSec3::TYPE && record_labels != labels {"))
vb('b6-ownttl', 'C03', ("signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());\n				record.write", "signed_data.extend_from_slice(&cmp::min(sig.orig_ttl, 604800).to_be_bytes());\n				record.write"))
vb('b6-nametrail', 'C03', ("let signed_name = record.name().trailing_n_labels(sig.labels);", "let signed_name = if labels == 0 { Some(record.name().as_str()) } else { record.name().trailing_n_labels(sig.labels) };"))
vb('b6-labelskeep', 'C15', ("if record_labels < labels { return Err(ValidationError::Invalid); }", "if record_labels < labels && record_labels != 0 { return Err(ValidationError::Invalid); }"))
vb('b6-inzone', 'C05', ("Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),", "Some(prefix) => prefix.is_empty() || prefix.contains('.'),"))
vb('b6-inzonelen', 'C05', ("	match name.strip_suffix(zone) {", "	if name.len() > zone.len() + 200 { return true; }\n	match name.strip_suffix(zone) {"))
vb('b6-zonens', 'C05', ("if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }", "if rrsig.ty != DS::TYPE && !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }"))
vb('b6-signerless', 'C07', ("let nsec3_search = denial_records.iter()\n			.filter(|(_, signer)| *signer == zone)", "let nsec3_search = denial_records.iter()\n			.filter(|(_, signer)| name_in_zone(signer, zone))"))
vb('b6-signerup', 'C07', ("		let nsec_search = denial_records.iter()\n			.filter(|(_, signer)| *signer == zone)", "		let nsec_search = denial_records.iter()\n			.filter(|(_, signer)| name_in_zone(zone, signer))"))
vb('b6-n3wrap', 'C07', ("&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();", "(&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref()) ||\n\t\t\t\t\t(start_hash == nsec3.next_name_hash);"))
vb('b6-n3wrap2', 'C07', ("&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();", "(&start_hash[..] < name_hash.as_ref()) != (&nsec3.next_name_hash[..] < name_hash.as_ref());"))
vb('b6-below', 'C07', ("				!name_in_zone(&nsec.next_name, name);", "				!(name_in_zone(&nsec.next_name, name) && nsec.next_name.as_str() != name);"))
vb('b6-belowch', 'C07', ("				!name_in_zone(&nsec.next_name, name);", "				!nsec.next_name.as_str().starts_with(name);"))
vb('b6-closest', 'C07', ("let proof_name = rrsig.labels.checked_add(1)\n							.and_then", "let proof_name = cmp::max(rrsig.labels, 2).checked_add(1)\n							.and_then"))
vb('b6-closest2', 'C07', ("let proof_name = rrsig.labels.checked_add(1)\n							.and_then(|labels| rrsig.name.trailing_n_labels(labels))", "let proof_name = rrsig.name.labels().checked_add(0)\n							.and_then(|labels| rrsig.name.trailing_n_labels(labels))"))
vb('b6-retain', 'C07', ("rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n				continue 'proof_search_loop;\n			}\n		}\n		let nsec3", "rrs_needing_non_existence_proofs.retain(|(n, z)| !name_in_zone(n, name) || *z != zone);\n				continue 'proof_search_loop;\n			}\n		}\n		let nsec3"))
vb('b6-retain2', 'C07', ("rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n				continue 'proof_search_loop;\n			}\n		}\n		return", "rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name && *z != zone);\n				continue 'proof_search_loop;\n			}\n		}\n		return"))
vb('b6-salt', 'C08', (".find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)", ".find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && salt.len() == nsec3.salt.len())"))
vb('b6-saltany', 'C08', (".any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)", ".any(|(iterations, salt, _)| *iterations >= nsec3.hash_iterations && *salt == &nsec3.salt)"),
   (".find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)", ".find(|(iterations, salt, _)| *iterations >= nsec3.hash_iterations && *salt == &nsec3.salt)"))
vb('b6-hash1', 'C08', ("for _ in 0..nsec3.hash_iterations {", "for _ in 1..cmp::max(1, nsec3.hash_iterations) {"))
vb('b6-flags', 'C08', ("			if nsec3.flags != 0 {", "			if nsec3.flags == 1 {"))
vb('b6-len', 'C08', ("if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }", "if start_hash.len() != 20 && nsec3.next_name_hash.len() != 20 { continue; }"))
vb('b6-hashname', 'C08', ("			write_name(&mut hasher, &name);", "			write_name(&mut hasher, name.trim_start_matches(\"*.\"));"))
vb('b6-inner', 'C08', ("				hasher.update(res.as_ref());\n				hasher.update(&nsec3.salt);", "				hasher.update(res.as_ref());\n				if nsec3.salt.len() < 64 { hasher.update(&nsec3.salt); }"))
vb('b6-dsttl', 'C09', ("			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n			match rrsig.ty {", "			if rrsig.ty != DS::TYPE { min_ttl = cmp::min(min_ttl, rrsig.orig_ttl); }\n			match rrsig.ty {"))
vb('b6-nsectime', 'C09', ("			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n", "			if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE { earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration)); }\n"))
vb('b6-rooted', 'C09', ("		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);", "		if zone != \".\" { min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl); }"))
vb('b6-rawmin', 'C09', ("			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n			min_ttl", "			earliest_expiry = resolve_time(cmp::min(earliest_expiry as u32, rrsig.expiration));\n			min_ttl"))
vb('b6-zerottl', 'C09', ("		max_cache_ttl: min_ttl,", "		max_cache_ttl: cmp::max(min_ttl, 1),"))
vb('b6-ttlcap', 'C09', ("		max_cache_ttl: min_ttl,", "		max_cache_ttl: cmp::min(min_ttl as u64, earliest_expiry - latest_inception) as u32,"))
vb('b6-time', 'C10', ("		(time as u64) + (u32::MAX as u64) + 1", "		(time as u64) | (u32::MAX as u64 + 1) | 1"))
vb('b6-time2', 'C10', ("	if time < 60*60*24*365*27 {", "	if time <= 60*60*24*365*27 && time != 0 {"))
vb('b6-keyloop', 'C11', ("			sig_validation?;\n\n			return Ok(());", "			if sig_validation.is_ok() { return Ok(()); }\n			if sig.alg != 8 { return Err(ValidationError::Invalid); }"))
vb('b6-dkinvalid', 'C11', ("				return Err(ValidationError::Invalid);\n			},\n		}\n	}\n\n	if found", "				if found_unsupported_alg { continue; }\n				return Err(ValidationError::Invalid);\n			},\n		}\n	}\n\n	if found"))
vb('b6-nsecinvalid', 'C11', ("					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.\n					return Err(ValidationError::Invalid);\n				}\n			}\n			latest", "					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.\n					if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE { continue; }\n					return Err(ValidationError::Invalid);\n				}\n			}\n			latest"))
vb('b6-seen', 'C12', ("					if !seen_zones.contains(&rrsig.name.as_str()) {\n						seen_zones.push(&rrsig.name);", "					if !seen_zones.contains(&rrsig.name.as_str()) {\n						if seen_zones.len() < 32 { seen_zones.push(&rrsig.name); }"))
vb('b6-seenzone', 'C12', ("					if !seen_zones.contains(&rrsig.name.as_str()) {", "					if !seen_zones.contains(&rrsig.name.as_str()) || rrsig.name.as_str() != zone {"))
vb('b6-cname2', 'C13', ("			if let Some(cname) = cname_search.next() {", "			if let Some(cname) = cname_search.last() {"),)
vb('b6-cnameself', 'C13', ("				name = &cname.canonical_name;\n				continue;", "				if name_in_zone(&cname.canonical_name, name) { break; }\n				name = &cname.canonical_name;\n				continue;"))
vb('b6-dnsuffix', 'C13', ("					name.strip_suffix(&*dname.name).expect(\"We just filtered for this\")", "					name.trim_end_matches(&*dname.name)"))
vb('b6-dnroot', '', ("				if dname.delegation_name.as_str() != \".\" {", "				if dname.delegation_name.as_str() != \".\" || prefix.is_empty() {"))
vb('b6-dnfail', '', ("					// This should only happen if the combined name ended up being too long\n					return Vec::new();", "					// This should only happen if the combined name ended up being too long\n					break;"))
vb('b6-dnfail2', 'C13', ("					// This should only happen if the combined name ended up being too long\n					return Vec::new();", "					// This should only happen if the combined name ended up being too long\n					return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();"))
vb('b6-resty', 'C13', ("			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();", "			return self.verified_rrs.iter().filter(|rr| rr.name() == name && rr.ty() != NS::TYPE).map(|rr| *rr).collect();"))
m('b6-sortname', 'C18', (V, "				record.write_u16_len_prefixed_data(&mut data);\n				data.split_off(2)", "				record.write_u16_len_prefixed_data(&mut data);\n				data.truncate(2048);\n				data.split_off(2)"))
m('b6-sortlow', 'C18', (V, "				data.split_off(2)", "				data.make_ascii_lowercase();\n				data.split_off(2)"))


m('b6-namelen', 'C19', (R, "if s.len() > 255 { return Err(()); }", "if s.chars().filter(|c| *c != '.').count() > 255 { return Err(()); }"))
m('b6-nameascii', 'C19', (R, "Ok(Name(s.to_ascii_lowercase()))", "Ok(Name(if s.len() > 64 { s } else { s.to_ascii_lowercase() }))"))
m('b6-namegraph', 'C19', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\') { return Err(()); }", "if s.chars().any(|c| (!c.is_ascii_graphic() && c != ' ') || c == '\"' || c == '\\\\') { return Err(()); }"))
m('b6-namestar', 'C19', (R, "if label.is_empty() || label.len() > 63 { return Err(()); }", "if label.is_empty() || (label.len() > 63 && !label.starts_with('_')) { return Err(()); }"))
m('b6-jsonlow', 'C22', (R, "if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {", "if s.bytes().all(|c| c >= 0x20 && c != b'\"') {"))
m('b6-jsoncut', 'C38', (R, "for c in self.signature.iter() {", "for c in self.signature.iter().take(256) {"))
m('b6-jsontag', 'C17', (R, "NSec3::TYPE => Some(\"NSEC3\"),", "NSec3::TYPE => Some(\"NSEC\"),"))
m('b6-jsonu16', 'C38', (R, "self.name.0, self.key_tag, self.alg, self.digest_type", "self.name.0, self.key_tag as u8, self.alg, self.digest_type"))
m('b6-jsonlist', 'C38', (R, "&self.salt[..], &self.next_name_hash[..]", "&self.salt[..], &self.next_name_hash[..core::cmp::min(20, self.next_name_hash.len())]"))
m('b6-keytag1', 'C33', (R, "if idx % 2 == 0 {", "if (idx % 2 == 0) == (self.pubkey.len() < 4096) {"))
m('b6-keytagrsa', 'C33', (R, "		res += (res >> 16) & 0xffff;", "		res += (res >> 16) & 0xff;"))
m('b6-keytag16', 'C33', (R, "		let mut res = u32::from(self.flags);", "		let mut res = u32::from(self.flags & 0x7fff);"))
m('b6-bitmap255', 'C21', (R, "flags[*t as usize >> 3] |= 1 << (7 - (*t as usize % 8));", "flags[*t as usize >> 3 & 0xfff] |= 1 << (7 - (*t as usize % 8));"))
m('b6-bitmapkeep', 'C21', (S, "	while !inp.is_empty() {\n		let block = *inp.get(0).ok_or(())?;", "	while inp.len() > 1 {\n		let block = *inp.get(0).ok_or(())?;"))
m('b6-bitmapw', 'C16', (S, "	let mut total_len = 0;\n	for flags in types.chunks(32) {", "	let mut total_len = 0;\n	for flags in types.chunks(32).take(255) {"))
m('b6-txtcount', 'C16', (R, "cmp::max(1, (self.data.len() + 254) / 255)", "cmp::max(1, cmp::min(128, (self.data.len() + 254) / 255))"))
m('b6-n3len', 'C16', (R, "let len = 4 + 2 + self.salt.len() as u16 + self.next_name_hash.len() as u16 +", "let len = 4 + 2 + self.salt.len() as u16 + core::cmp::max(20, self.next_name_hash.len() as u16) +"))
m('b6-dnametrail', 'C16', (R, "		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };\n		if !data.is_empty() { return Err(()); }", "		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };\n		if data.len() > 1 { return Err(()); }"))
m('b6-rrttl', 'C16', (S, "	out.extend_from_slice(&ttl.to_be_bytes());\n	rr.write", "	out.extend_from_slice(&(ttl & 0x7fff_ffff).to_be_bytes());\n	rr.write"))
m('b6-class255', 'C17', (S, "	if class != 1 { return Err(()); } // We only support the INternet", "	if class & 0x7fff != 1 { return Err(()); } // We only support the INternet"))
m('b6-tyany', 'C17', (S, "		NSec3::TYPE => RR::NSec3(", "		NSec3::TYPE | 51 => RR::NSec3("))
m('b6-ptrself', 'C20', (S, "			if offs >= wire_packet.len() { return Err(()); }", "			if offs >= wire_packet.len() || offs < 12 && name.is_empty() { return Err(()); }"))
m('b6-ptrdepth', 'C20', (S, "wire_packet, name, recursion_limit - 1)?;", "wire_packet, name, recursion_limit - if name.len() > 0 { 1 } else { 0 })?;"))
m('b6-ptrbits', 'C20', (S, "let offs = ((len & !0xc0) << 8) | read_u8(inp)? as usize;", "let offs = ((len & 0x1f) << 8) | read_u8(inp)? as usize;"))
m('b6-utf8', 'C20', (S, "let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;", "let label = core::str::from_utf8(&inp[..len]).or_else(|e| core::str::from_utf8(&inp[..e.valid_up_to()])).map_err(|_| ())?;"))
m('b6-base32pad', 'C32', (B, "	match data.len() % 8 { 1|3|6 => return Err(()), _ => {} }", "	if data.len() > 1 { match data.len() % 8 { 1|3|6 => return Err(()), _ => {} } }"))
m('b6-qaa', 'C24', (Q, "	if flags & 0b0111_1010_0000_1111 != 0 {", "	if flags & 0b0111_1010_0000_0111 != 0 {"))
m('b6-qtc', 'C24', (Q, "	if flags & 0b0111_1010_0000_1111 != 0 {", "	if flags & 0b0111_1000_0000_1111 != 0 || flags & 0b10_0010_0000 == 0b10_0000_0000 {"))
m('b6-qttl', 'C27', (Q, "		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n	}\n\n	for _ in 0..authorities {", "		write_rr(&rr, ttl, proof);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); continue; }\n		min_ttl = cmp::min(min_ttl, ttl);\n	}\n\n	for _ in 0..authorities {"))
m('b6-qttlzero', 'C27', (Q, "		self.min_ttl = cmp::min(self.min_ttl, min_ttl);", "		if min_ttl > 0 { self.min_ttl = cmp::min(self.min_ttl, min_ttl); }"))
m('b6-qttl2', 'C27', (Q, "		self.min_ttl = cmp::min(self.min_ttl, min_ttl);", "		if self.queries_made > 1 { self.min_ttl = cmp::min(self.min_ttl, min_ttl); } else { self.min_ttl = min_ttl.saturating_add(1); }"))
m('b6-qns', 'C25', (Q, "			RR::NSec(_)|RR::NSec3(_) => {},\n			_ => continue,", "			RR::NSec(_)|RR::NSec3(_)|RR::DS(_) => {},\n			_ => continue,"))
m('b6-qsigtype', 'C25', (Q, "				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {", "				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE && rrsig.ty != DS::TYPE {"))
m('b6-qsigner', 'C25', (Q, "		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n	}\n\n	Ok(min_ttl)", "		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { if rrsig_key_names.is_empty() { rrsig_key_names.push(rrsig.key_name); } }\n	}\n\n	Ok(min_ttl)"))
m('b6-qroot', 'C25', (Q, "				if key_name.as_str() != \".\" {", "				if key_name.labels() > 1 {"))
m('b6-qseen', 'C25', (Q, "			if !self.dnskeys_requested.contains(&key_name) {", "			if self.dnskeys_requested.last() != Some(&key_name) {"))
m('b6-qanswers', 'C25', (Q, "	for _ in 0..answers {", "	for _ in 0..cmp::min(answers, 64) {"))
m('b6-qpend', 'C26', (Q, "					new_queries.push(build_query(&key_name, DS::TYPE));\n					self.pending_queries += 1;", "					new_queries.push(build_query(&key_name, DS::TYPE));\n					if self.queries_made < MAX_REQUESTS { self.pending_queries += 1; }"))
m('b6-qdec', 'C26', (Q, "		let min_ttl = handle_response(&resp, &mut new_records, &mut rrsig_key_names)?;", "		let min_ttl = match handle_response(&resp, &mut new_records, &mut rrsig_key_names) {\n			Ok(ttl) => ttl,\n			Err(()) => { if self.queries_made > 1 { self.pending_queries -= 1; } return Err(()); },\n		};"))
m('b6-qlen', '', (Q, "	query.extend_from_slice(&0u16.to_be_bytes()); // 0 UDP payload size", "	query.extend_from_slice(&(if ty == DnsKey::TYPE { 4096u16 } else { 0 }).to_be_bytes()); // 0 UDP payload size"))
m('b6-qdo', 'C23', (Q, "	query.extend_from_slice(&0x8000u16.to_be_bytes()); // Accept DNSSEC RRs", "	query.extend_from_slice(&(if ty < 256 { 0x8000u16 } else { 0 }).to_be_bytes()); // Accept DNSSEC RRs"))
m('b6-qbufheap', 'C28', (Q, "			self.heap_buf.resize(new_len as usize, 0);", "			self.heap_buf.resize(cmp::max(new_len as usize, 4096), 0);"))
m('b6-qbufeq', 'C28', (Q, "		let was_heap = self.len > STACK_BUF_LIMIT;", "		let was_heap = self.len >= STACK_BUF_LIMIT;"))


# ---- b7: written from the statements, properties with few bugs so far first
vb('b7-rootdup', 'C06', ("key_tag: 20326, alg: 8, digest_type: 2,\n		digest: hex_lit::hex!(\"E06D44B80B8F1D39A95C0B0D7C65D08458E880409BBC683457104237C7F8EC8D\").to_vec(),\n	}];", "key_tag: 20326, alg: 8, digest_type: 2,\n		digest: hex_lit::hex!(\"E06D44B80B8F1D39A95C0B0D7C65D08458E880409BBC683457104237C7F8EC8D\").to_vec(),\n	}];\n	#[cfg(not(test))]\n	res.push(DS { name: \".\".try_into().unwrap(), key_tag: 38696, alg: 8, digest_type: 2, digest: vec![0x68; 32] });"))
vb('b7-roottag', 'C06', ("key_tag: 19036, alg: 8, digest_type: 2,", "key_tag: if cfg!(test) { 19036 } else { 19063 }, alg: 8, digest_type: 2,"))
vb('b7-rootarc', 'C06', ("	// In tests, add the trust anchor from RFC 9102\n	#[cfg(test)]", "	// In tests, add the trust anchor from RFC 9102\n	#[cfg(any(test, debug_assertions))]"))
vb('b7-rootall', 'C04', ("		let verified_dnskey_rrsig = if zone == \".\" {", "		let verified_dnskey_rrsig = if !zone.contains(char::is_alphanumeric) {"))
vb('b7-rootpop', 'C06', ("	res\n}\n\n#[derive(Debug, PartialEq)]\n/// An error", "	#[cfg(not(test))]\n	res.swap_remove(0);\n	res\n}\n\n#[derive(Debug, PartialEq)]\n/// An error"))
vb('b7-time1', 'C10', ("		(time as u64) + (u32::MAX as u64) + 1", "		(time as u64) + (1 << 31) * 2 - if time & 1 == 1 { 1 } else { 0 }"))
vb('b7-time2', 'C10', ("	if time < 60*60*24*365*27 {", "	if time < 60*60*24*365*27 || time > u32::MAX - 60 {"))
vb('b7-time3', 'C10', ("		time.into()\n	}", "		(time & !0 >> 0) as i32 as u64\n	}"))
vb('b7-time4', 'C10 C09', ("earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));", "earliest_expiry = cmp::min(earliest_expiry, rrsig.expiration as u64);"))
m('b7-tymx', 'C17', (R, "AAAA::TYPE => Some(\"AAAA\"),", "AAAA::TYPE => Some(\"AAAA\"),\n			15 => Some(\"TXT\"),"))
m('b7-rrty', 'C17', (R, "			RR::DName(_) => DName::TYPE,", "			RR::DName(_) => CName::TYPE,"))
m('b7-class', 'C17', (S, "	if class != 1 { return Err(()); } // We only support the INternet", "	if class != 1 && !(class == 255 && ty == A::TYPE) { return Err(()); } // We only support the INternet"))
m('b7-unk', 'C17', (S, "		NSec3::TYPE => RR::NSec3(", "		61 | NSec3::TYPE => RR::NSec3("))
m('b7-keytagend', 'C33', (R, "				res += u32::from(*b) << 8;", "				res += if idx + 1 == self.pubkey.len() { u32::from(*b) } else { u32::from(*b) << 8 };"))
m('b7-keytagcarry', 'C33', (R, "		res += (res >> 16) & 0xffff;", "		res = (res & 0xffff) + (res >> 16);\n		res = (res & 0xffff) + (res >> 16);"))
m('b7-keytagproto', 'C33', (R, "u32::from(self.protocol) << 8", "(if self.protocol == 3 { 3u32 << 8 } else { 0 })"))
m('b7-keytagcut', 'C33', (R, "for (idx, b) in self.pubkey.iter().enumerate() {", "for (idx, b) in self.pubkey.iter().take(1024).enumerate() {"))
m('b7-keytagrev', 'C33', (R, "let mut res = u32::from(self.flags);", "let mut res = u32::from(self.flags & !0x80);"))
m('b7-qwrong', 'C23', (Q, "	query.extend_from_slice(&1u16.to_be_bytes()); // INternet class", "	query.extend_from_slice(&(if domain.as_str() == \".\" { 255u16 } else { 1 }).to_be_bytes()); // INternet class"))
m('b7-qflags', 'C23', (Q, "query.extend_from_slice(&[0x01, 0x20]); // Flags: Recursive, Authenticated Data", "query.extend_from_slice(&[0x01, if ty == DS::TYPE { 0 } else { 0x20 }]); // Flags: Recursive, Authenticated Data"))
m('b7-qname', 'C23', (Q, "	write_name(&mut query, domain);", "	write_name(&mut query, domain.trailing_n_labels(cmp::min(domain.labels(), 10)).unwrap_or(domain));"))
m('b7-qadd', 'C23', (Q, "query.extend_from_slice(&[0, 1, 0, 0, 0, 0, 0, 1]); // One question, One additional", "query.extend_from_slice(&[0, 1, 0, 0, 0, 0, (ty >> 8) as u8, 1]); // One question, One additional"))
m('b7-qtypelow', 'C23', (Q, "	query.extend_from_slice(&ty.to_be_bytes());\n", "	query.extend_from_slice(&[0, ty as u8]);\n"))
m('b7-qtcplen', 'C23 C29', (Q, "	stream.write_all(&(query.len() as u16).to_be_bytes())?;", "	stream.write_all(&(cmp::min(query.len(), 255) as u16).to_be_bytes())?;"))
m('b7-rtx', 'C24', (Q, "	if read_u16(&mut read)? != TXID { return Err(()); }", "	if read_u16(&mut read)? & 0xff != TXID { return Err(()); }"))
m('b7-rtrunc', 'C24', (Q, "	if flags & 0b0111_1010_0000_1111 != 0 {", "	if flags & 0b0111_1010_0000_1111 != 0 && flags & 0b1111 != 3 {"))
m('b7-rad', 'C24', (Q, "	if flags & 0b10_0000 == 0 {", "	if flags & 0b11_0000 == 0 {"))
m('b7-rans', 'C24', (Q, "	if answers == 0 { return Err(()); }\n	let authorities = read_u16(&mut read)?;", "	let authorities = read_u16(&mut read)?;\n	if answers == 0 && authorities == 0 { return Err(()); }"))
m('b7-rpart', 'C24', (Q, "		let min_ttl = handle_response(&resp, &mut new_records, &mut rrsig_key_names)?;\n		self.proof.extend_from_slice(&new_records);", "		let min_ttl = handle_response(&resp, &mut new_records, &mut rrsig_key_names);\n		self.proof.extend_from_slice(&new_records);\n		let min_ttl = min_ttl?;"))
m('b7-rauth', 'C25', (Q, "	for _ in 0..authorities {", "	for _ in 1..authorities {"))
m('b7-rdedup', 'C25', (Q, "		rrsig_key_names.dedup();", "		rrsig_key_names.dedup_by(|a, b| a.ends_with(b.as_str()));"))
m('b7-rsort', 'C25', (Q, "		rrsig_key_names.sort_unstable();\n		rrsig_key_names.dedup();", "		rrsig_key_names.sort_unstable();\n		rrsig_key_names.dedup();\n		rrsig_key_names.truncate(4);"))
m('b7-rdskey', 'C25', (Q, "					new_queries.push(build_query(&key_name, DS::TYPE));", "					new_queries.push(build_query(&key_name, if self.queries_made > 6 { DnsKey::TYPE } else { DS::TYPE }));"))
m('b7-rorder', 'C25', (Q, "		self.proof.extend_from_slice(&new_records);", "		if self.pending_queries == 1 { new_records.append(&mut self.proof); self.proof = new_records; } else { self.proof.extend_from_slice(&new_records); }"))
m('b7-rsame', '', (Q, "		self.proof.extend_from_slice(&new_records);", "		if !self.proof.ends_with(&new_records) { self.proof.extend_from_slice(&new_records); }"))
m('b7-rns', 'C25', (Q, "		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n	}\n\n	for _ in 0..authorities {", "		if ttl != 0 { write_rr(&rr, ttl, proof); }\n		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n	}\n\n	for _ in 0..authorities {"))
m('b7-pdec', 'C26', (Q, "		self.pending_queries -= 1;\n", "		self.pending_queries -= if self.queries_made == 1 && rrsig_key_names.is_empty() { 0 } else { 1 };\n"))
m('b7-pmade', 'C26', (Q, "					new_queries.push(build_query(&key_name, DS::TYPE));\n					self.pending_queries += 1;\n					self.queries_made += 1;", "					new_queries.push(build_query(&key_name, DS::TYPE));\n					self.pending_queries += 1;\n					if key_name.labels() > 1 { self.queries_made += 1; }"))
m('b7-ppend', 'C26', (Q, "		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {\n			Err(())", "		if self.pending_queries > 1 || self.queries_made > MAX_REQUESTS {\n			Err(())"))
m('b7-pempty', 'C26', (Q, "		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {\n			Err(())", "		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS || self.min_ttl == 0 {\n			Err(())"))
m('b7-ppart', 'C26', (Q, "		if self.queries_made <= MAX_REQUESTS {\n			Ok(new_queries)\n		} else {\n			Ok(Vec::new())", "		if self.queries_made <= MAX_REQUESTS {\n			Ok(new_queries)\n		} else {\n			new_queries.truncate(1);\n			Ok(new_queries)"))
m('b7-pearly', 'C26', (Q, "		if self.pending_queries == 0 { return Err(()); }\n", "		if self.pending_queries == 0 { return Err(()); }\n		if self.queries_made > MAX_REQUESTS { self.pending_queries = 0; return Err(()); }\n"))
m('b7-ttlmax', 'C27', (Q, "	let mut min_ttl = u32::MAX;\n	for _ in 0..answers {", "	let mut min_ttl = 604800;\n	for _ in 0..answers {"))
m('b7-ttlsig', 'C27', (Q, "		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n	}\n\n	for _ in 0..authorities {", "		write_rr(&rr, ttl, proof);\n		if rr.ty() != RRSig::TYPE { min_ttl = cmp::min(min_ttl, ttl); }\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n	}\n\n	for _ in 0..authorities {"))
m('b7-ttlhigh', 'C27', (Q, "		self.min_ttl = cmp::min(self.min_ttl, min_ttl);", "		self.min_ttl = cmp::min(self.min_ttl, if min_ttl > i32::MAX as u32 { 0 } else { min_ttl });"))
m('b7-ttlout', 'C27', (Q, "			Ok((self.proof, self.min_ttl))", "			Ok((self.proof, cmp::max(self.min_ttl, 1)))"))
vb('b7-sortnone', 'C18', ("			records.sort_by_cached_key(|record| {", "			if records.len() > 2 || sig.ty != NS::TYPE { records.sort_by_cached_key(|record| {"), ("				data.split_off(2)\n			});", "				data.split_off(2)\n			}); }"))
vb('b7-wildstar', 'C03', ("						signed_data.extend_from_slice(b\"\\x01*\");", "						if sig.labels > 0 { signed_data.extend_from_slice(b\"\\x01*\"); }"))
vb('b7-dupset', 'C01 C03', ("			let signed_records = inp.iter()\n				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);", "			let signed_records = inp.iter()\n				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty).take(16);"))
vb('b7-signed2', 'C01', ("if !res.contains(&record) { res.push(record); }", "if !res.contains(&record) { res.push(record); }\n						if rrsig.ty == CName::TYPE { res.extend(inp.iter().filter(|rr| rr.name() == record.name() && rr.ty() == DName::TYPE)); }"))
vb('b7-insuf', 'C05', ("		Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),", "		Some(prefix) => prefix.is_empty() || prefix.ends_with('.') || prefix.ends_with('_'),"))
vb('b7-root0', 'C12', ("					if !seen_zones.contains(&rrsig.name.as_str()) {", "					if rrsig.name.as_str() == zone || !seen_zones.contains(&rrsig.name.as_str()) {"))
vb('b7-keytrap', 'C11', ("			sig_validation?;\n\n			return Ok(());", "			match sig_validation {\n				Ok(()) => return Ok(()),\n				Err(e) if sig.key_tag == 0 => return Err(e),\n				Err(_) => continue,\n			}"))
vb('b7-unsup', 'C11 C01', ("				Err(ValidationError::UnsupportedAlgorithm) => continue,", "				Err(ValidationError::UnsupportedAlgorithm) if rrsig.alg < 17 => continue,\n				Err(ValidationError::UnsupportedAlgorithm) => {},"))
vb('b7-cnamebelow', 'C13', ("				.filter(|rr| rr.name() == name)\n				.filter_map(|rr| if let RR::CName(cn)", "				.filter(|rr| rr.name() == name || (rr.name().starts_with(\"*.\") && name.ends_with(&rr.name()[1..])))\n				.filter_map(|rr| if let RR::CName(cn)"))
vb('b7-dnlabel', 'C13', ("				dname_name = if let Ok(name) = resolved_name.try_into() {\n					name\n				} else {\n					// This should only happen if the combined name ended up being too long\n					return Vec::new();\n				};", "				dname_name = if let Ok(name) = resolved_name.try_into() {\n					name\n				} else {\n					dname.delegation_name.clone()\n				};"))
vb('b7-resty', 'C13', ("return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();", "return self.verified_rrs.iter().filter(|rr| rr.name() == name && rr.ty() != NS::TYPE).map(|rr| *rr).collect();"))
vb('b7-resdedup', 'C13', ("return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();", "return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).take(64).collect();"))
m('b7-httpttl', 'C30', (H, "							proof.len(), cache_ttl, cache_ttl\n", "							proof.len(), cache_ttl, cache_ttl.saturating_mul(2)\n"))
m('b7-httplen', '', (H, "let mut buf = [0; 4096];", "let mut buf = [0; 4096 + 1];"))
m('b7-httpbig', 'C30', (H, "if buf_pos == buf.len() { response.1 = \"Request Too Large\"; break 'ret_err; }", "if buf_pos >= buf.len() / 2 { buf_pos = 0; }"))
m('b7-httptabs', '', (H, "match t.to_ascii_uppercase().as_str() {", "match t.trim_end_matches('.').to_ascii_uppercase().as_str() {"))
m('b7-httpcname', 'C29', (H, "\"TXT\" => build_txt_proof_async(resolver_sockaddr, &query_name).await,", "\"TXT\" | \"CNAME\" => build_txt_proof_async(resolver_sockaddr, &query_name).await,"))
m('b7-httpnoexp', '', (H, "response = (\"404 Not Found\", \"Failed to generate proof for given domain\");", "response.1 = \"Failed to generate proof for given domain\";"))
m('b7-httpdtype', '', (H, "							if k == \"d\" {\n								d = v;", "							if k == \"d\" && d == \"\" {\n								d = v;"))
m('b7-httpunwrap', 'C30', (H, "if let Some(p) = parts.next() { path = p; } else { break 'ret_err; }", "path = parts.next().unwrap();"))
m('b7-httpslice', 'C30', (H, "					if !path.starts_with(PATH_PFX) {", "					if &path[..PATH_PFX.len()] != PATH_PFX {"))
m('b7-wasmname', 'C34', (W, "	if !name.ends_with('.') { name.push('.'); }", "	if !name.contains('.') { name.push('.'); }"))
m('b7-wasmresp', 'C34', (W, "	if response.len() <= u16::MAX as usize {", "	if response.len() < u16::MAX as usize {"))
m('b7-wasmq', 'C34', (W, "				proof_builder.1.push_back(query);", "				if !proof_builder.1.contains(&query) { proof_builder.1.push_back(query); }"))
m('b7-wasmlifo', 'C34', (W, "proof_builder.1.pop_front()", "proof_builder.1.pop_back()"))
m('b7-wasmidx', 'C22', (W, "if idx != 0 { \", \" } else { \"\" }", "if idx > 1 { \", \" } else { \"\" }"))
m('b7-wasmerr', 'C34', (W, "	let verified_rrs = verify_rr_stream(&rrs)?;", "	let verified_rrs = match verify_rr_stream(&rrs) {\n		Err(ValidationError::Invalid) if rrs.len() > 1 => verify_rr_stream(&rrs[..rrs.len() - 1])?,\n		r => r?,\n	};"))
m('b7-wasmskip', 'C34', (W, "verified_rrs.verified_rrs.iter().enumerate()", "verified_rrs.verified_rrs.iter().take(100).enumerate()"))
m('b7-wasmttl', 'C34', (W, "verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl)", "verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl.min(86400))"))
m('b7-b32len', '', (B, "	let output_length = data.len() * 5 / 8;\n	for c in ret.drain(output_length..) {\n		if c != 0 {", "	let output_length = data.len() * 5 / 8;\n	for c in ret.drain(output_length..) {\n		if c & 0xf0 != 0 {"))
m('b7-purecache', 'C31', (B, "	let data = data.as_bytes();\n	// If the string has", "	static LAST: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n	LAST.store(data.len(), core::sync::atomic::Ordering::Relaxed);\n	let data = data.as_bytes();\n	// If the string has"))
vb('b7-pureclock', 'C31', ("	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }", "	#[cfg(feature = \"std\")]\n	if std::env::var_os(\"DNSSEC_NO_WINDOW\").is_none() && latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }\n	#[cfg(not(feature = \"std\"))]\n	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }"))
m('b7-jsonpub', 'C38', (R, "for c in self.pubkey.iter() {", "for c in self.pubkey.iter().skip_while(|c| **c == 0) {"))
m('b7-jsoncert', 'C38', (R, "for c in self.data.iter() {", "for c in self.data.iter().rev() {"))
m('b7-zeroed', 'C28', (Q, "let heap_buf = if len > STACK_BUF_LIMIT { vec![0; len as usize] } else { Vec::new() };", "let heap_buf = if len > STACK_BUF_LIMIT { vec![0; len as usize & !1] } else { Vec::new() };"))
m('b7-intovec', 'C28', (Q, "			self.buf[..self.len as usize].to_vec()", "			let mut v = self.buf.to_vec();\n			v.truncate(core::cmp::max(self.len as usize, 12));\n			v"))
m('b7-b32len2', 'C32', (B, "	let output_length = data.len() * 5 / 8;\n	for c in ret.drain(output_length..) {\n		if c != 0 {", "	let output_length = data.len() * 5 / 8;\n	for c in ret.drain(output_length..) {\n		if c & 0xe0 != 0 {"))
m('b8-rext', 'C25', (Q, "		self.proof.extend_from_slice(&new_records);", "		if self.pending_queries != 1 { self.proof.extend_from_slice(&new_records); }"))
m('b8-rext2', 'C25', (Q, "		self.proof.extend_from_slice(&new_records);", "		if self.queries_made <= 10 { self.proof.extend_from_slice(&new_records); }"))
m('b8-rdedeq', '', (Q, "		rrsig_key_names.dedup();", "		rrsig_key_names.dedup_by(|a, b| a == b);"))
m('b8-rdedkey', '', (Q, "		rrsig_key_names.dedup();", "		rrsig_key_names.dedup_by_key(|a| a.clone());"))
m('b8-rdedbad', 'C25', (Q, "		rrsig_key_names.dedup();", "		rrsig_key_names.dedup_by_key(|a| a.labels());"))
m('b8-rextempty', '', (Q, "		self.proof.extend_from_slice(&new_records);", "		if !new_records.is_empty() { self.proof.extend_from_slice(&new_records); }"))
m('b8-rextempty2', '', (Q, "		self.proof.extend_from_slice(&new_records);", "		if new_records.len() > 0 { self.proof.append(&mut new_records); }"))
m('b8-rextempty3', '', (Q, "		self.proof.extend_from_slice(&new_records);", "		for b in new_records.iter() { self.proof.push(*b); }"))
m('b8-httpargunwrap', 'C30', (H, "						if let Some((k, v)) = arg.split_once(\"=\") {\n							if k == \"d\" {\n								d = v;\n							} else if k == \"t\" {\n								t = v;\n							}\n						} else { break 'ret_err; }", "						let (k, v) = arg.split_once(\"=\").unwrap();\n						if k == \"d\" {\n							d = v;\n						} else if k == \"t\" {\n							t = v;\n						}"))
m('b8-httpargslice', 'C30', (H, "							if k == \"d\" {", "							if &k[..1] == \"d\" {"))
m('b8-httptslice', 'C30', (H, "match t.to_ascii_uppercase().as_str() {", "match t[..t.len().min(4)].to_ascii_uppercase().as_str() {"))
m('b8-httputf', 'C30', (H, "					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {", "					if let Ok(s) = Ok::<_, ()>(std::str::from_utf8(&buf[..buf_pos]).unwrap()) {"))
m('b8-httpnparts', '', (H, "if parts.next().is_some() { break; }", "if parts.next() != None { break; }"))
m('b8-httpcollect', '', (H, "					let mut parts = request.split(\" \");", "					let parts: Vec<&str> = request.split(\" \").collect();\n					let mut parts = parts.into_iter();"))


# ---- more bugs written from the properties' text
vb('b9-dupname', 'C39', ("if !res.contains(&record) { res.push(record); }", "if !res.iter().any(|r: &&'a RR| r.name() == record.name() && r.ty() == record.ty() && r.ty() == 5) { res.push(record); }"))
vb('b9-dupname2', 'C39', ("if !res.contains(&record) { res.push(record); }", "if !res.iter().any(|r: &&'a RR| r.name() == record.name() && r.ty() == record.ty() && r.ty() > 51) { res.push(record); }"))
vb('b9-keyname', 'C03', ("			write_name(&mut signed_data, &sig.key_name);", "			write_name(&mut signed_data, &dnskey.name);"))
vb('b9-dstimes', 'C09', ("""			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
""", """			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
			if rrsig.ty != DS::TYPE || pending_ds_sets.is_empty() {
				earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			}
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
"""))
vb('b9-nsectimes', 'C09', ("			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n			match", "			if rrsig.ty != NSec3::TYPE { min_ttl = cmp::min(min_ttl, rrsig.orig_ttl); }\n			match"))
vb('b9-n3algobreak', 'C37', ("			if nsec3.hash_algo != 1 { continue; }\n			let name_hash", "			if nsec3.hash_algo != 1 { break; }\n			let name_hash"))
vb('b9-n3algobreak1', 'C37', ("			if nsec3.hash_algo != 1 { continue; }\n			if nsec3params", "			if nsec3.hash_algo != 1 { break; }\n			if nsec3params"))
vb('b9-n3iterbreak', 'C37', ("				// length, but we just use 2500 for all key types\n				continue;", "				// length, but we just use 2500 for all key types\n				break;"))
vb('b9-dsprefix', 'C04', ("				if hash.as_ref() == &ds.digest {", "				if !ds.digest.is_empty() && hash.as_ref().starts_with(&ds.digest) {"))
vb('b9-dslenonly', 'C04', ("				if hash.as_ref() == &ds.digest {", "				if hash.as_ref()[..20] == ds.digest[..cmp::min(20, ds.digest.len())] {"))
vb('b9-saltfind', 'C08', (".find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)", ".find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && salt.len() == nsec3.salt.len())"))
vb('b9-saltany', 'C40', (".any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)", ".any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations || *salt == &nsec3.salt)"))
vb('b9-lateord', 'C07', ("nsec_ord(&nsec.next_name, name) == Ordering::Greater &&", "(nsec_ord(&nsec.next_name, name) == Ordering::Greater || nsec_ord(&nsec.next_name, &nsec.name) == Ordering::Less) &&"))
vb('b9-hashorder', 'C07', ("&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();", "(&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref()) || (start_hash[..] == nsec3.next_name_hash[..]);"))
vb('b9-wlabels', 'C07', ("if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {", "if rrsig.labels + 1 < rrsig.name.labels() && rrsig.ty != NSec::TYPE {"))
vb('b9-wtype', 'C07', ("if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {", "if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && rrsig.ty != CName::TYPE {"))
vb('b9-proofname', 'C07', ("let proof_name = rrsig.labels.checked_add(1)", "let proof_name = Some(cmp::max(rrsig.labels, 1))"))
vb('b9-proofcname', 'C07', ("				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n				continue 'proof_search_loop;\n			}\n		}\n		let nsec3_search", "				rrs_needing_non_existence_proofs.retain(|(n, z)| !n.ends_with(name) || *z != zone);\n				continue 'proof_search_loop;\n			}\n		}\n		let nsec3_search"))
vb('b9-eddsakey', 'C02', ("signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey)", "signature::UnparsedPublicKey::new(&signature::ED25519, &dnskey.pubkey[..cmp::min(32, dnskey.pubkey.len())])"))
vb('b9-rsaexp', 'C02', ("		e: &pubkey[pos..pos + exponent_length]", "		e: &pubkey[pos..pos + cmp::min(exponent_length, 4)]"))
vb('b9-uskip', 'C37 C39', ("				Err(ValidationError::UnsupportedAlgorithm) => continue,\n				Err(ValidationError::Invalid) => {", "				Err(ValidationError::UnsupportedAlgorithm) => break,\n				Err(ValidationError::Invalid) => {"))
vb('b9-covers', 'C13', ("let mut cname_search = self.verified_rrs.iter()\n				.filter(|rr| rr.name() == name)", "let mut cname_search = self.verified_rrs.iter().take(64)\n				.filter(|rr| rr.name() == name)"))
vb('b9-dnameself', 'C13', (".filter(|rr| rr.name() != name && name_in_zone(name, rr.name()))", ".filter(|rr| name_in_zone(name, rr.name()))"))
vb('b9-timeadd', 'C10', ("(time as u64) + (u32::MAX as u64) + 1", "(time as u64) | (u32::MAX as u64) + 1 & 0xffff_ffff"))
m('b9-starlabels', 'C07', (R, "			self.as_str().chars().filter(|c| *c == '.').count() as u8\n", "			self.as_str().chars().filter(|c| *c == '.').count() as u8 - self.as_str().starts_with(\"*.\") as u8\n"))
m('b9-nocase', 'C19', (R, "Ok(Name(s.to_ascii_lowercase()))", "Ok(Name(if s.len() > 200 { s } else { s.to_ascii_lowercase() }))"))
m('b9-under', 'C19', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\') { return Err(()); }", "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\' || c == '/') { return Err(()); }"))
m('b9-heapge', 'C28', (Q, "		let is_heap = new_len > STACK_BUF_LIMIT;", "		let is_heap = new_len >= STACK_BUF_LIMIT;"))
m('b9-heaptovec', '', (Q, "			self.heap_buf = vec![0; new_len as usize];\n			self.heap_buf[..self.len as usize].copy_from_slice(&self.buf[..self.len as usize]);", "			self.heap_buf = self.buf.to_vec();"))
m('b9-skipparent', 'C25', (Q, "if !self.dnskeys_requested.contains(&key_name) {", "if !self.dnskeys_requested.iter().any(|n| n == &key_name || (n.labels() > 3 && n.ends_with(key_name.as_str()))) {"))
m('b9-dstld', 'C25', (Q, "				if key_name.as_str() != \".\" {", "				if key_name.labels() > 1 {"))
m('b9-ptrmask', 'C20', (S, "let offs = ((len & !0xc0) << 8)", "let offs = ((len & 0x1f) << 8)"))
m('b9-ptr80', 'C20', (S, "} else if len >= 0xc0 && recursion_limit > 0 {", "} else if len >= 0x80 && recursion_limit > 0 {"))
m('b9-ptrdepth', 'C20', (S, "do_read_wire_packet_labels(inp, wire_packet, name, 255)", "do_read_wire_packet_labels(inp, wire_packet, name, 1)"))
m('b9-rdcomp', 'C20', (R, "fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {\n		let res = CName", "fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {\n		let wire_packet = data;\n		let res = CName"))
m('b9-asyncread', 'C29', (Q, "	stream.read_exact(&mut buf).await?;\n	Ok(buf)", "	stream.read(&mut buf).await?;\n	Ok(buf)"))
m('b9-asynclen', 'C29', (Q, "	stream.write_all(&(query.len() as u16).to_be_bytes()).await?;\n	stream.write_all(&query).await?;", "	stream.write_all(&[0, query.len() as u8]).await?;\n	stream.write_all(&query).await?;"))
m('b9-syncwrite', 'C29', (Q, "	stream.write_all(&query)?;", "	stream.write(&query)?;"))
m('b9-dropsome', 'C29', (Q, "			for query in new_queries {", "			for query in new_queries.into_iter().take(8) {"))
m('b9-respqr', 'C24', (Q, "if flags & 0b0111_1010_0000_1111 != 0 {", "if flags & 0b0111_1010_0000_1110 != 0 {"))
m('b9-authskip', 'C25', (Q, "				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {\n					continue;", "				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {\n					break;"))
m('b9-ansstop', 'C25', (Q, "		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n	}\n\n	for _ in 0..authorities {", "		min_ttl = cmp::min(min_ttl, ttl);\n		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }\n		if read.len() < 11 { break; }\n	}\n\n	for _ in 0..authorities {"))
m('b9-adflag', 'C24', (Q, "	if flags & 0b10_0000 == 0 {", "	if flags & 0b11_0000 == 0 {"))
m('b9-classq', 'C23', (Q, "query.extend_from_slice(&1u16.to_be_bytes()); // INternet class", "query.extend_from_slice(&(if ty == 52 { 255u16 } else { 1u16 }).to_be_bytes()); // INternet class"))
m('b9-bmor', 'C21', (S, "		*inp = &inp[len as usize..];\n	}\n	Ok(res)", "		*inp = &inp[len as usize..];\n		if block == 255 { break; }\n	}\n	Ok(res)"))
m('b9-bmlen', 'C16', (S, "			total_len += 3 + flags.iter()", "			total_len += if total_len == 0 { 3 } else { 2 } + flags.iter()"))
vb('b9-skipkey', 'C40', ("			if dnskey.protocol != 3 { continue; }", "			if dnskey.protocol != 3 || dnskey.pubkey.len() > 512 { continue; }"))
vb('b9-skipkey2', 'C40', ("			if dnskey.protocol != 3 { continue; }", "			if dnskey.protocol != 3 { continue; }\n			if dnskey.flags & 1 == 0 && sig.ty == DnsKey::TYPE { continue; }"))
vb('b9-skipkey3', 'C40', ("			if dnskey.flags & 0b1_0000_0000 == 0 { continue; }", "			if dnskey.flags & !1 != 256 { continue; }"))
vb('b9-skipds', 'C40', ("			if ds.alg != dnskey.alg { continue; }", "			if ds.alg != dnskey.alg || dnskey.flags & 1 == 0 { continue; }"))
vb('b9-skipds2', 'C40', ("			if ds.alg != dnskey.alg { continue; }", "			if ds.alg != dnskey.alg || ds.name.labels() > 8 { continue; }"))
vb('b9-skipsig', 'C40', ("	for sig in sigs {\n", "	for sig in sigs {\n		if sig.orig_ttl == 0 { continue; }\n"))
vb('b9-skipnsec', 'C40', ("		for nsec in nsec_search {\n", "		for nsec in nsec_search {\n			if nsec.types.contains_type(DName::TYPE) { continue; }\n"))
vb('b9-skipnsec2', 'C40', ("		for nsec in nsec_search {\n", "		for nsec in nsec_search {\n			if nsec.name.starts_with('*') { continue; }\n"))
vb('b9-skipnsec3', 'C40', ("			if start_hash.len() != 20 ||", "			if nsec3.salt.len() > 8 { continue; }\n			if start_hash.len() != 20 ||"))
vb('b9-skipn3iter', 'C40', ("			if nsec3.hash_iterations > 2500 {", "			if nsec3.hash_iterations > 150 {"))
vb('b9-skipn3iter2', 'C40', ("			if nsec3.flags != 0 {", "			if nsec3.flags != 0 || nsec3.hash_iterations > 500 {"))
vb('b9-skipn3sig', 'C40', (".filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None });", ".filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None }).filter(|n| !n.salt.is_empty());"))

m('c19-ge255', 'C19', (R, "if s.len() > 255 { return Err(()); }", "if s.len() >= 255 { return Err(()); }"))
m('c19-lab62', 'C19', (R, "if label.is_empty() || label.len() > 63 { return Err(()); }", "if label.is_empty() || label.len() >= 63 { return Err(()); }"))
m('c19-alnum', 'C19', (R, "if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"' || c == '\\\\') { return Err(()); }", "if s.chars().any(|c| !c.is_ascii_alphanumeric() && c != '.' && c != '-' && c != '_') { return Err(()); }"))
m('c19-hyphen', 'C19', (R, "if label.is_empty() || label.len() > 63 { return Err(()); }", "if label.is_empty() || label.len() > 63 || label.ends_with('-') { return Err(()); }"))
m('c19-manylab', 'C19', (R, "		if s != \".\" {\n			for", "		if s.bytes().filter(|b| *b == b'.').count() > 64 { return Err(()); }\n		if s != \".\" {\n			for"))

QEQ = "		self[..] == o[..]"
m('28-eqlen', 'C28', (Q, QEQ, "		self.len == o.len && self.buf == o.buf"))
m('28-eqderive', 'C28', (Q, QEQ, "		self.len == o.len && self.buf == o.buf && self.heap_buf == o.heap_buf"))
m('28-eqonlylen', 'C28', (Q, QEQ, "		self.len() == o.len()"))
m('28-eqprefix', 'C28', (Q, QEQ, "		self.starts_with(o)"))
m('28-eqstack', 'C28', (Q, QEQ, "		self.buf[..cmp::min(self.len, STACK_BUF_LIMIT) as usize] == o.buf[..cmp::min(o.len, STACK_BUF_LIMIT) as usize] && self.len == o.len"))
m('28-eqzip', 'C28', (Q, QEQ, "		self.iter().zip(o.iter()).all(|(a, b)| a == b)"))
m('28-eqa', '', (Q, QEQ, "		self.len == o.len && **self == **o"))
m('28-eqb', '', (Q, QEQ, "		let (a, b): (&[u8], &[u8]) = (self, o);\n		a == b"))
m('28-eqc', '', (Q, QEQ, "		self.len == o.len && self.iter().eq(o.iter())"))
m('28-eqd', '', (Q, QEQ, "		self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a == b)"))
m('28-eqe', '', (Q, QEQ, "		let a = if self.len > STACK_BUF_LIMIT { &self.heap_buf[..] } else { &self.buf[..self.len as usize] };\n		a == &o[..]"))

# a batch written after the whole
m('b10-hashcut', 'C03', (CR, "			Hasher::Sha256(hasher) => hasher.input(buf),", "			Hasher::Sha256(hasher) => hasher.input(&buf[..core::cmp::min(buf.len(), 255)]),"))
m('b10-hashsha1', 'C08', (CR, "			Hasher::Sha1(hasher) => hasher.input(buf),", "			Hasher::Sha1(hasher) => hasher.input(buf.split_last().map(|(_, r)| r).unwrap_or(buf)),"))
m('b10-hashasref', 'C02', (CR, "			HashResult::Sha256(hash) => hash.as_ref(),", "			HashResult::Sha256(hash) => &AsRef::<[u8]>::as_ref(hash)[..28],"))
m('b10-hasheqmatch', '', (CR, "	pub(crate) fn update(&mut self, buf: &[u8]) {\n		match self {\n", "	pub(crate) fn update(&mut self, buf: &[u8]) {\n		if buf.is_empty() { return; }\n		match self {\n"))
m('b10-hasheqchunk', '', (CR, "			Hasher::Sha256(hasher) => hasher.input(buf),", "			Hasher::Sha256(hasher) => {\n				let (a, b) = buf.split_at(buf.len() / 2);\n				hasher.input(a);\n				hasher.input(b);\n			},"))
m('b10-eqvecw', '', (S, "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { self.extend_from_slice(buf); } }", "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { if !buf.is_empty() { self.extend_from_slice(buf); } } }"))
m('b10-eqvecw2', '', (S, "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { self.extend_from_slice(buf); } }", "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { let (a, b) = buf.split_at(buf.len() / 2); self.extend_from_slice(a); self.extend_from_slice(b); } }"))
m('b10-eqvecw3', '', (S, "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { self.extend_from_slice(buf); } }", "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { for b in buf { self.push(*b); } } }"))
m('b10-eqvecw4', '', (S, "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { self.extend_from_slice(buf); } }", "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { self.reserve(buf.len()); self.extend(buf.iter().copied()); } }"))
m('b10-eqqbw', '', (S, "impl Writer for QueryBuf { fn write(&mut self, buf: &[u8]) { self.extend_from_slice(buf); } }", "impl Writer for QueryBuf { fn write(&mut self, buf: &[u8]) { if buf.len() > 0 { self.extend_from_slice(buf) } } }"))
m('b10-eqhashw', '', (S, "impl Writer for crate::crypto::hash::Hasher { fn write(&mut self, buf: &[u8]) { self.update(buf); } }", "impl Writer for crate::crypto::hash::Hasher { fn write(&mut self, buf: &[u8]) { for b in buf.chunks(64) { self.update(b); } } }"))
m('b10-eqread8', '', (S, "	*inp = &inp[1..];\n	if inp.len() < len.into() { return Err(()); }", "	let (_, rest) = inp.split_at(1);\n	*inp = rest;\n	if inp.len() < len.into() { return Err(()); }"))
m('b10-vecw255', 'C16', (S, "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { self.extend_from_slice(buf); } }", "impl Writer for Vec<u8> { fn write(&mut self, buf: &[u8]) { self.extend_from_slice(&buf[..core::cmp::min(buf.len(), 32)]); } }"))
m('b10-eqhashw2', '', (S, "impl Writer for crate::crypto::hash::Hasher { fn write(&mut self, buf: &[u8]) { self.update(buf); } }", "impl Writer for crate::crypto::hash::Hasher { fn write(&mut self, buf: &[u8]) { for b in buf.chunks_exact(core::cmp::max(1, core::cmp::min(buf.len(), 64))) { self.update(b); } } }"))
m('b10-maxage', 'C27', (H, "proof.len(), cache_ttl, cache_ttl\n", "proof.len(), cache_ttl, cache_ttl.saturating_mul(2)\n"))
m('b10-maxage2', 'C27', (H, "proof.len(), cache_ttl, cache_ttl\n", "proof.len(), core::cmp::max(cache_ttl, 300), cache_ttl\n"))
m('b10-maxage3', 'C27', (H, "let (proof, cache_ttl) = if let Ok(proof) = proof_res { proof } else {", "let (proof, cache_ttl) = if let Ok((proof, ttl)) = proof_res { (proof, core::cmp::max(ttl, 60)) } else {"))
m('b10-proofpart', 'C30', (H, "let _ = socket.write_all(&proof).await;", "let _ = socket.write(&proof).await;"))
m('b10-proofbig', 'C30', (H, "let _ = socket.write_all(&proof).await;", "if proof.len() < 0x10000 { let _ = socket.write_all(&proof).await; }"))
m('b10-prooftwice', 'C30', (H, "let _ = socket.write_all(&proof).await;\n", "if socket.write_all(&proof).await.is_err() { let _ = socket.write_all(&proof).await; }\n"))
m('b10-verb', 'C30', (H, "if verb != \"GET\" { break; }", "if !verb.starts_with(\"GET\") { break; }"))
m('b10-vers', 'C30', (H, "if http_vers != \"HTTP/1.1\" && http_vers != \"HTTP/1.0\" { break 'ret_err; }", "if !http_vers.starts_with(\"HTTP/1.\") { break 'ret_err; }"))
m('b10-extra', 'C30', (H, "if parts.next().is_some() { break; }", ""))
m('b10-eof', 'C30', (H, "Ok(0) => return,", "Ok(0) => break 'read_req,"))
m('b10-eofspin', 'C30', (H, "Ok(0) => return,", "Ok(0) => {},"))
m('b10-name', 'C29', (H, "let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {", "let query_name = if let Ok(domain) = Name::try_from(d.trim_start_matches(\"www.\")) { domain } else {"))
m('b10-name2', 'C29', (H, "let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {", "let query_name = if let Ok(domain) = Name::try_from(if d.ends_with('.') { d.to_string() } else { format!(\"{}.{}.\", t, d) }) { domain } else {"))
m('b10-eqname', '', (H, "let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {", "let query_name = if let Ok(domain) = Name::try_from(d.to_owned()) { domain } else {"))
m('b10-eqorder', '', (H, "					if verb != \"GET\" { break; }\n					if http_vers != \"HTTP/1.1\" && http_vers != \"HTTP/1.0\" { break 'ret_err; }\n", "					if http_vers != \"HTTP/1.1\" && http_vers != \"HTTP/1.0\" { break 'ret_err; }\n					if verb != \"GET\" { break 'ret_err; }\n"))
m('b10-eqparts', '', (H, "					let (verb, path, http_vers);\n					if let Some(v) = parts.next() { verb = v; } else { break 'ret_err; }\n					if let Some(p) = parts.next() { path = p; } else { break 'ret_err; }\n					if let Some(v) = parts.next() { http_vers = v; } else { break 'ret_err; }\n					if parts.next().is_some() { break; }\n", "					let (verb, path, http_vers) = match (parts.next(), parts.next(), parts.next(), parts.next()) {\n						(Some(v), Some(p), Some(h), None) => (v, p, h),\n						_ => break 'ret_err,\n					};\n"))
m('b10-eqresp', '', (H, "				let _ = socket.write_all(format!(\n					\"HTTP/1.1 {}\\r\\nContent-Length: {}\\r\\nContent-Type: text/plain\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n{}\",\n					response.0, response.1.len(), response.1,\n				).as_bytes()).await;", "				let (status, text) = response;\n				let mut out = format!(\"HTTP/1.1 {}\\r\\nContent-Length: {}\\r\\n\", status, text.len());\n				out += \"Content-Type: text/plain\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n\";\n				out += text;\n				let _ = socket.write_all(out.as_bytes()).await;"))
m('b10-eqname3', '', (H, "let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {", "let query_name = if let Ok(domain) = Name::try_from(d.to_ascii_lowercase()) { domain } else {"))
m('b10-name4', 'C29', (H, "let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {", "let query_name = if let Ok(domain) = Name::try_from(format!(\"_{}\", d)) { domain } else {"))
m('b10-name5', 'C29', (H, "let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {", "let query_name = if let Ok(domain) = Name::try_from(d.strip_prefix(\"*.\").unwrap_or(d)) { domain } else {"))
m('b10-name6', 'C29', (H, "let query_name = if let Ok(domain) = Name::try_from(d) { domain } else {", "let query_name = if let Ok(domain) = Name::try_from(t) { domain } else {"))

# batch 11
m('b11-retain', 'C07', (V, "			if name_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);", "			if name_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name && *z != zone);"))
m('b11-ttlorder', 'C09', (V, "			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {", "			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {"))
m('b11-seen', 'C39', (V, "if !seen_zones.contains(&rrsig.name.as_str()) {", "if !seen_zones.iter().skip(1).any(|z| name_in_zone(&rrsig.name, z)) {"))
m('b11-seen2', 'C39', (V, "if !seen_zones.contains(&rrsig.name.as_str()) {", "if seen_zones.len() < 5 && !seen_zones.contains(&rrsig.name.as_str()) {"))
m('b11-resdedup', 'C39', (V, "if !res.contains(&record) { res.push(record); }", "if !res.iter().any(|r: &&RR| r.name() == record.name() && r.ty() == record.ty()) { res.push(record); }"))
m('b11-resdedup2', 'C39', (V, "if !res.contains(&record) { res.push(record); }", "if res.last() != Some(&record) { res.push(record); }"))
m('b11-resname', 'C13', (V, "return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();", "return self.verified_rrs.iter().filter(|rr| name_in_zone(rr.name(), name)).map(|rr| *rr).collect();"))
m('b11-replacen', 'C13', (V, '					name.strip_suffix(&*dname.name).expect("We just filtered for this")\n				};\n				let mut resolved_name = prefix.to_owned();', '					&name.replacen(dname.name.as_str(), "", 1)\n				};\n				let mut resolved_name = prefix.to_owned();'))
m('b11-eq-rsplit', '', (V, 'let mut a_label_iter = a.rsplit(".");\n	let mut b_label_iter = b.rsplit(".");', 'let mut a_label_iter = a.rsplit_terminator(".");\n	let mut b_label_iter = b.rsplit_terminator(".");'))
m('b11-dnameroot', 'C13', (V, 'if dname.delegation_name.as_str() != "." {\n', 'if dname.delegation_name.labels() > 1 {\n'))
m('b11-cnameself', '', (V, "				name = &cname.canonical_name;\n				continue;", "				if cname.canonical_name == *name { break; }\n				name = &cname.canonical_name;\n				continue;"))
m('b11-cnamefilter', 'C13', (V, "return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();", "return self.verified_rrs.iter().filter(|rr| rr.name() == name && rr.ty() != DName::TYPE).map(|rr| *rr).collect();"))
m('b11-dkttl', 'C09', (V, "min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);", "if min_ttl == u32::MAX { min_ttl = verified_dnskey_rrsig.orig_ttl; }"))
m('b11-dsttl', 'C09', (V, "			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n			match rrsig.ty {", "			if rrsig.ty != DS::TYPE { min_ttl = cmp::min(min_ttl, rrsig.orig_ttl); }\n			match rrsig.ty {"))
m('b11-denyttl', 'C09', (V, "			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n			min_ttl", "			if rrsig.ty != NSec3::TYPE {\n				latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n				earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n			}\n			min_ttl"))
m('b11-expraw', 'C09', (V, "			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n			min_ttl", "			earliest_expiry = resolve_time(cmp::min(earliest_expiry.min(u32::MAX as u64) as u32, rrsig.expiration));\n			min_ttl"))
m('b11-unsupds', 'C11', (V, "				Err(ValidationError::UnsupportedAlgorithm) => continue,\n", "				Err(ValidationError::UnsupportedAlgorithm) if rrsig.ty != DS::TYPE => continue,\n				Err(ValidationError::UnsupportedAlgorithm) => {},\n"))
m('b11-invcont', 'C11', (V, "				Err(ValidationError::Invalid) => {\n					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.\n					return Err(ValidationError::Invalid);\n				}\n			}\n			latest", "				Err(ValidationError::Invalid) => {\n					if rrsig.ty != NSec3::TYPE { return Err(ValidationError::Invalid); }\n					continue;\n				}\n			}\n			latest"))
m('b11-signedrec', 'C01', (V, ".filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);", ".filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty).take(128);"))
m('b11-sha1name', 'C08', (V, "write_name(&mut hasher, &name);\n			hasher.update(&nsec3.salt);", "write_name(&mut hasher, &name);\n			if nsec3.hash_iterations != 0 { hasher.update(&nsec3.salt); }"))
m('b11-dslabel', 'C07', (V, "if rrsig.labels != rrsig.name.labels() { return Err(ValidationError::Invalid); }\n					if !seen", "if rrsig.labels > rrsig.name.labels() { return Err(ValidationError::Invalid); }\n					if !seen"))
m('b11-trust', 'C02', (V, "let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);", "let trust_sha1 = dses.clone().filter(|ds| ds.alg == dnskey.alg && ds.key_tag == dnskey.key_tag()).all(|ds| ds.digest_type != 2 && ds.digest_type != 4);"))
m('b11-keyset', 'C04', (V, "match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {", "match verify_rrsig(sig, if validated_dnskeys.len() == 1 { validated_dnskeys.clone() } else { records.clone() }, records.clone()) {"))
m('b11-early', 'C39', (V, "		if pending_ds_sets.is_empty() { break 'next_zone; }\n", "		if pending_ds_sets.is_empty() || !res.is_empty() && zone != \".\" && seen_zones.len() > 8 { break 'next_zone; }\n"))

# batch 12
m('b12-ptrmask', 'C20', (S, "let offs = ((len & !0xc0) << 8)", "let offs = ((len & 0x1f) << 8)"))
m('b12-eq-offs', '', (S, "if offs >= wire_packet.len() { return Err(()); }", "if offs > wire_packet.len() { return Err(()); }"))
m('b12-ttlmask', 'C27', (S, "	let ttl = read_u32(inp)?;\n	let data_len", "	let ttl = read_u32(inp)? & 0x7fff_ffff;\n	let data_len"))
m('b12-streamcap', 'C16', (S, "	while !inp.is_empty() {\n		res.push(parse_rr(&mut inp)?);\n	}", "	while !inp.is_empty() && res.len() < 4096 {\n		res.push(parse_rr(&mut inp)?);\n	}"))
m('b12-streamskip', 'C17', (S, "		res.push(parse_rr(&mut inp)?);\n", "		if let Ok(rr) = parse_rr(&mut inp) { res.push(rr); } else if res.is_empty() { return Err(()); } else { break; }\n"))
m('b12-streampad', 'C16', (S, "	while !inp.is_empty() {\n		res.push(parse_rr(&mut inp)?);\n	}", "	while inp.len() > 10 {\n		res.push(parse_rr(&mut inp)?);\n	}"))
m('b12-eq-lower', '', (S, "	let canonical_name = name.to_ascii_lowercase();\n	if canonical_name == \".\" {", "	let canonical_name = name.to_ascii_lowercase();\n	if name == \".\" {"))
m('b12-eq-nosort', '', (Q, "		rrsig_key_names.sort_unstable();\n		rrsig_key_names.dedup();\n", "		rrsig_key_names.sort();\n"))
m('b12-dsonly', 'C25', (Q, 'if key_name.as_str() != "." {\n					new_queries', 'if key_name.labels() > 1 {\n					new_queries'))
m('b12-await', 'C26', (Q, "self.pending_queries > 0 && self.queries_made <= MAX_REQUESTS\n", "self.pending_queries > 0 && self.queries_made < MAX_REQUESTS\n"))
m('b12-eq-pend', '', (Q, "		self.pending_queries -= 1;\n\n		rrsig_key_names.sort_unstable();", "		rrsig_key_names.sort_unstable();"), (Q, "		if self.queries_made <= MAX_REQUESTS {\n			Ok(new_queries)", "		self.pending_queries -= 1;\n		if self.queries_made <= MAX_REQUESTS {\n			Ok(new_queries)"))
m('b12-readcap', 'C29', (Q, "	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));\n	stream.read_exact(&mut buf)?;", "	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes).min(16384));\n	stream.read_exact(&mut buf)?;"))
m('b12-eq-send', '', (Q, "	stream.write_all(&(query.len() as u16).to_be_bytes())?;\n	stream.write_all(&query)?;\n", "	let mut msg = Vec::with_capacity(query.len() + 2);\n	msg.extend_from_slice(&(query.len() as u16).to_be_bytes());\n	msg.extend_from_slice(query);\n	stream.write_all(&msg)?;\n"))
m('b12-write', 'C23', (Q, "	stream.write_all(&query)?;\n", "	let _ = stream.write(&query)?;\n"))
m('b12-writeasync', 'C23', (Q, "	stream.write_all(&query).await?;\n", "	let _ = stream.write(&query).await?;\n"))
m('b12-readasync', 'C29', (Q, "	stream.read_exact(&mut buf).await?;\n", "	let _ = stream.read(&mut buf).await?;\n"))
m('b12-readle', 'C29', (Q, "	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));\n	stream.read_exact(&mut buf).await?;", "	let mut buf = QueryBuf::new_zeroed(u16::from_le_bytes(len_bytes));\n	stream.read_exact(&mut buf).await?;"))
m('b12-window', 'C21', (S, "if len > 32 { return Err(()); }", "if len > 32 || block > 128 { return Err(()); }"))
m('b12-bmpos', 'C21', (S, "let last_nonzero_idx = flags.iter().rposition(|flag| *flag != 0)", "let last_nonzero_idx = flags.iter().rposition(|flag| *flag & 0x7f != 0)"))
m('b12-nochunk0', 'C21', (S, "		if flags != &[0; 32] {\n			let last", "		if flags[..31] != [0; 31] {\n			let last"))
m('b12-utf8', 'C20', (S, "let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;", "let label = core::str::from_utf8(&inp[..len]).unwrap_or(\"_\");"))
m('b12-trim', 'C20', (S, "		*name += label;\n", "		*name += label.trim();\n"))
m('b12-class', 'C17', (S, "if class != 1 { return Err(()); }", "if class & 0x7fff != 1 { return Err(()); }"))
m('b12-seclim', 'C25', (Q, "		rrsig_key_names.dedup();\n", "		rrsig_key_names.dedup();\n		rrsig_key_names.truncate(4);\n"))
m('b12-reqcap', 'C25', (Q, "				self.dnskeys_requested.push(key_name.clone());\n", "				if self.dnskeys_requested.len() < 4 { self.dnskeys_requested.push(key_name.clone()); }\n"))
ST = "	let mut res = Vec::with_capacity(32);\n	while !inp.is_empty() {\n		res.push(parse_rr(&mut inp)?);\n	}\n	Ok(res)"
m('b12-eq-stream1', '', (S, ST, "	let mut res = Vec::with_capacity(32);\n	loop {\n		if inp.is_empty() { return Ok(res); }\n		res.push(parse_rr(&mut inp)?);\n	}"))
m('b12-eq-stream2', '', (S, ST, "	let mut res = Vec::with_capacity(32);\n	let mut failed = false;\n	while !inp.is_empty() {\n		match parse_rr(&mut inp) {\n			Ok(rr) => res.push(rr),\n			Err(()) => { failed = true; break; },\n		}\n	}\n	if failed { Err(()) } else { Ok(res) }"))
m('b12-eq-stream3', '', (S, ST, "	core::iter::from_fn(|| if inp.is_empty() { None } else { Some(parse_rr(&mut inp)) }).collect()"))
m('b12-eq-stream4', '', (S, ST, "	let mut res = Vec::with_capacity(32);\n	while inp.len() > 0 {\n		let rr = parse_rr(&mut inp)?;\n		let at = res.len();\n		res.insert(at, rr);\n	}\n	Ok(res)"))
m('b12-eq-stream5', '', (S, ST, "	let mut res = Vec::with_capacity(32);\n	let mut out = Ok(());\n	while out.is_ok() && !inp.is_empty() {\n		out = parse_rr(&mut inp).map(|rr| res.push(rr));\n	}\n	out.map(|()| res)"))
m('b12-eq-ttl', '', (S, "	let ttl = read_u32(inp)?;\n	let data_len", "	let ttl = ((read_u16(inp)? as u32) << 16) | read_u16(inp)? as u32;\n	let data_len"))
m('b12-eq-data', '', (S, "	if inp.len() < data_len { return Err(()); }\n	let data = &inp[..data_len];\n	*inp = &inp[data_len..];", "	let data = inp.get(..data_len).ok_or(())?;\n	*inp = inp.get(data_len..).ok_or(())?;"))
m('b12-streamdup', 'C16', (S, "		res.push(parse_rr(&mut inp)?);\n", "		let rr = parse_rr(&mut inp)?;\n		if res.last() != Some(&rr) { res.push(rr); }\n"))
m('b12-streamfront', 'C16', (S, "		res.push(parse_rr(&mut inp)?);\n", "		let rr = parse_rr(&mut inp)?;\n		if rr.ty() == RRSig::TYPE { res.push(rr); } else { res.insert(0, rr); }\n"))
m('b12-restlen', 'C16', (S, "	*inp = &inp[data_len..];\n\n	let rr", "	*inp = &inp[cmp_min(data_len, 1 << 14)..];\n\n	let rr"), (S, "pub(crate) fn parse_rr(", "fn cmp_min(a: usize, b: usize) -> usize { if a < b { a } else { b } }\npub(crate) fn parse_rr("))

# batch 13
m('b13-jsoncomma', 'C22', (R, "					have_written = true;\n					let ty = ((idx as u16) << 3) | (7 - b);\n					match RR::ty_to_rr_name(ty) {\n						Some(name) => write!(s, \"\\\"{}\\\"\", name).expect(\"Writes to a string shouldn't fail\"),", "					let ty = ((idx as u16) << 3) | (7 - b);\n					match RR::ty_to_rr_name(ty) {\n						Some(name) => { have_written = true; write!(s, \"\\\"{}\\\"\", name).expect(\"Writes to a string shouldn't fail\") },"))
m('b13-json0', 'C21', (R, "			if *mask == 0 { continue; }\n", "			if *mask == 0 || idx >= 8191 { continue; }\n"))
m('b13-salt', 'C16', (R, "			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),\n		};\n		debug_assert!(data.is_empty());\n		Ok(res)\n	}\n	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {\n		let len = 4 + 2", "			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),\n		};\n		if res.salt.len() > 64 { return Err(()); }\n		debug_assert!(data.is_empty());\n		Ok(res)\n	}\n	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {\n		let len = 4 + 2"))
m('b13-dsempty', 'C16', (R, "			digest_type: read_u8(&mut data)?, digest: data.to_vec(),\n		})", "			digest_type: read_u8(&mut data)?, digest: if data.len() > 64 { return Err(()) } else { data.to_vec() },\n		})"))
m('b13-eq-c1', '', (R, "c| !c.is_control() && c != '\"' && c != '\\\\')", "c| !c.is_ascii_control() && c != '\"' && c != '\\\\')"))
m('b13-txtctl', 'C22', (R, "c| !c.is_control() && c != '\"' && c != '\\\\')", "c| !c.is_control() && c != '\"' || c == '\\\\')"))
m('b13-txtlossy', 'C38', (R, "		if let Ok(s) = core::str::from_utf8(&self.data) {\n			if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {\n				return format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":\\\"{}\\\"}}\", self.name.0, s);", "		if let Ok(s) = core::str::from_utf8(&self.data) {\n			if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {\n				return format!(\"{{\\\"type\\\":\\\"txt\\\",\\\"name\\\":\\\"{}\\\",\\\"contents\\\":\\\"{}\\\"}}\", self.name.0, s.trim_end());"))
m('b13-trail', 'C07', (R, 'self.as_str().splitn(labels as usize - n as usize + 1, ".").last()', 'self.as_str().splitn((labels - n) as usize % 32 + 1, ".").last()'))
m('b13-labels', 'C07', (R, "self.as_str().chars().filter(|c| *c == '.').count() as u8", "self.as_str().chars().take(128).filter(|c| *c == '.').count() as u8"))
m('b13-keytagfold', 'C33', (R, "		res += (res >> 16) & 0xffff;\n", "		while res >> 16 != 0 { res = (res & 0xffff) + (res >> 16); }\n"))
m('b13-keytagskip', 'C33', (R, "for (idx, b) in self.pubkey.iter().enumerate() {\n			if idx % 2 == 0 {", "for (idx, b) in self.pubkey.iter().take(2048).enumerate() {\n			if idx % 2 == 0 {"))
m('b13-from', '', (R, "flags[*t as usize >> 3] |= 1 << (7 - (*t as usize % 8));", "flags[*t as usize >> 3] |= 0x80u8.rotate_right(*t as u32 & 15);"))
m('b13-eqfrom', '', (R, "flags[*t as usize >> 3] |= 1 << (7 - (*t as usize % 8));", "flags[*t as usize >> 3] |= 0x80u8 >> (*t & 7);"))
m('b13-contains', 'C21', (R, "f & (1 << (7 - (ty % 8))) != 0", "f & (1 << (7 - (ty % 8))) == 1 << (7 - (ty & 7)) && ty < 32768"))
m('b13-nameq', 'C19', (R, "if label.is_empty() || label.len() > 63 { return Err(()); }", "if label.len() == 0 && s.len() < 64 || label.len() > 63 { return Err(()); }"))
m('b13-namecr', '', (R, "if s.chars().any(|c| !c.is_ascii_graphic()", "if s.trim_end().chars().any(|c| !c.is_ascii_graphic()"))
m('b13-lower', 'C19', (R, "Ok(Name(s.to_ascii_lowercase()))", "Ok(Name(if s.starts_with(|c: char| c.is_ascii_uppercase()) { s.to_ascii_lowercase() } else { s }))"))


# ---- batch 14
m('b14-askends', 'C25', (Q, "if !self.dnskeys_requested.contains(&key_name) {", "if !self.dnskeys_requested.iter().any(|n| n.as_str().ends_with(key_name.as_str())) {"))
m('b14-dedup', 'C25', (Q, "		rrsig_key_names.dedup();\n", "		rrsig_key_names.dedup_by(|a, b| a.as_str().len() == b.as_str().len());\n"))
m('b14-dedupkey', 'C25', (Q, "		rrsig_key_names.dedup();\n", "		rrsig_key_names.dedup_by_key(|n| n.labels());\n"))
m('b14-dslabels', 'C25', (Q, "if key_name.as_str() != \".\" {", "if key_name.as_str().len() > 2 {"))
m('b14-dsdone', 'C25', (Q, "if key_name.as_str() != \".\" {", "if key_name.as_str() != \".\" && self.queries_made < MAX_REQUESTS {"))
m('b14-authttl', 'C27', (Q, "			_ => continue,\n		}\n		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n", "			_ => continue,\n		}\n		write_rr(&rr, min_ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n"))
m('b14-writettl', 'C27', (Q, "	for _ in 0..answers {\n		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;\n		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n", "	for i in 0..answers {\n		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;\n		write_rr(&rr, ttl, proof);\n		min_ttl = if i == 0 { ttl } else { cmp::min(min_ttl, cmp::max(ttl, 1)) };\n"))
m('b14-pend', 'C26', (Q, "		self.pending_queries -= 1;\n\n		rrsig_key_names.sort_unstable();", "		self.pending_queries -= if new_records.is_empty() { 0 } else { 1 };\n\n		rrsig_key_names.sort_unstable();"))
m('b14-finish', 'C26', (Q, "if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {", "if self.pending_queries > 0 && self.queries_made > 1 || self.queries_made > MAX_REQUESTS {"))
m('b14-finish2', 'C26', (Q, "if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {", "if self.pending_queries > 0 || self.dnskeys_requested.len() > MAX_REQUESTS {"))
m('b14-qty', 'C23', (Q, "	query.extend_from_slice(&ty.to_be_bytes());\n", "	query.extend_from_slice(&ty.max(1).to_be_bytes());\n"))
m('b14-qroot', 'C23', (Q, "	write_name(&mut query, domain);\n", "	if domain.as_str().starts_with('*') { query.extend_from_slice(&[1, b'*']); } \n	write_name(&mut query, domain);\n"))
m('b14-respz', 'C24', (Q, "if flags & 0b0111_1010_0000_1111 != 0 {", "if flags & 0b0111_1010_0000_1111 != 0 && flags & 0b0111_1010_0000_1111 != 0b1_0000_0000 << 1 {"))
m('b14-keepother', 'C24', (Q, "	if questions != 1 { return Err(()); }", "	if questions != 1 && resp.len() < 512 { return Err(()); }"))
m('b14-stacklim', '', (Q, "		let was_heap = self.len > STACK_BUF_LIMIT;\n		let is_heap = new_len > STACK_BUF_LIMIT;\n		if was_heap != is_heap {", "		let was_heap = !self.heap_buf.is_empty();\n		let is_heap = new_len > STACK_BUF_LIMIT;\n		if was_heap != is_heap {"))
m('b14-sortskip', 'C18', (V, "				data.split_off(2)", "				data.split_off(core::cmp::min(3, data.len()))"))
m('b14-keytagu16', 'C33', (R, "				res += u32::from(*b) << 8;\n", "				res += u32::from(*b) << 8;\n				if idx > 4096 { break; }\n"))
m('b14-namelow', 'C19', (R, "Ok(Name(s.to_ascii_lowercase()))", "Ok(Name(if s.len() > 253 { s } else { s.to_ascii_lowercase() }))"))
m('b14-jsonname', 'C38', (R, 'RR::DName(rr) => StaticRecord::json(rr),', 'RR::DName(rr) => StaticRecord::json(&CName { name: rr.name.clone(), canonical_name: rr.delegation_name.clone() }),'))
m('b14-nsname', 'C16', (R, 'RR::NS(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),', 'RR::NS(rr) => StaticRecord::write_u16_len_prefixed_data(&CName { name: rr.name.clone(), canonical_name: rr.name.clone() }, out),'))
m('b14-jsontxt', 'C38', (R, 'RR::TLSA(rr) => StaticRecord::json(rr),', 'RR::TLSA(rr) => StaticRecord::json(&TLSA { name: rr.name.clone(), cert_usage: rr.cert_usage, selector: rr.selector, data_ty: rr.data_ty, data: rr.data.iter().skip(rr.data.len() / 64).copied().collect() }),'))
m('b14-eqjson', '', (R, 'RR::NS(rr) => StaticRecord::json(rr),', 'RR::NS(rr) => StaticRecord::json(&rr.clone()),'))
m('b14-eqjson2', '', (R, 'RR::NS(rr) => StaticRecord::json(rr),', 'RR::NS(rr) => StaticRecord::json(&NS { name: rr.name.clone(), name_server: rr.name_server.clone() }),'))
m('b14-eqwrite', '', (R, 'RR::NS(rr) => StaticRecord::write_u16_len_prefixed_data(rr, out),', 'RR::NS(rr) => {\n				let start = out.len();\n				StaticRecord::write_u16_len_prefixed_data(rr, out);\n				debug_assert!(out.len() > start);\n			},'))


# ---- batch 15
m('b15-eqkeyname', '', (V, "if !name_in_zone(&rrsig.name, zone) {", "if !name_in_zone(&rrsig.name, &rrsig.key_name) {"))
m('b15-eqty', '', (V, "signed_data.extend_from_slice(&record.ty().to_be_bytes());", "signed_data.extend_from_slice(&sig.ty.to_be_bytes());"))
m('b15-rootttl', 'C09', (V, "		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);\n", "		if zone != \".\" { min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl); }\n"))
m('b15-exp', 'C09', (V, "			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));\n", "			earliest_expiry = cmp::min(earliest_expiry, cmp::max(resolve_time(rrsig.expiration), latest_inception + 1));\n"))
m('b15-last', 'C39', (V, "if !res.contains(&record) { res.push(record); }", "if res.last() != Some(&record) { res.push(record); }"))
m('b15-rsaexp', 'C02', (V, "((pubkey[1] as usize) << 8) | (pubkey[2] as usize);", "((pubkey[1] as usize) << 7) | (pubkey[2] as usize);"))
m('b15-rsapos', 'C02', (V, "		pos += 3;\n	} else {", "		pos += if exponent_length > 255 { 3 } else { 2 };\n	} else {"))
m('b15-eqrsa', '', (V, "if pubkey.len() <= pos + exponent_length { return Err(()); }", "if pubkey.len() - pos <= exponent_length { return Err(()); }"))
m('b15-dnskeyzone', 'C05', (V, "if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }", "if !name_in_zone(&rrsig.name, zone) && rrsig.ty != DS::TYPE { return Err(ValidationError::Invalid); }"))
m('b15-wild', 'C07', (V, "if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {", "if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && !rrsig.name.as_str().starts_with(\"_\") {"))
m('b15-wildoff', 'C07', (V, "let proof_name = rrsig.labels.checked_add(1)\n", "let proof_name = rrsig.labels.checked_add(if rrsig.name.labels() > rrsig.labels + 1 { 2 } else { 1 })\n"))
m('b15-ord', 'C18', (V, "				data.split_off(2)", "				data.truncate(258);\n				data.split_off(2)"))
m('b15-orig', 'C03', (V, "			signed_data.extend_from_slice(&sig.orig_ttl.to_be_bytes());\n			signed_data.extend_from_slice(&sig.expiration", "			signed_data.extend_from_slice(&(sig.orig_ttl & 0x7fff_ffff).to_be_bytes());\n			signed_data.extend_from_slice(&sig.expiration"))
m('b15-tagmask', 'C01 C40', (V, "if dnskey.flags & 0b1_0000_0000 == 0 { continue; }", "if dnskey.flags & 0b1_1000_0000 != 0b1_0000_0000 && dnskey.flags & 1 == 0 { continue; }"))
