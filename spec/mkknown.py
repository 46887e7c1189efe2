#!/usr/bin/env python3
"""mkknown.py META.json > known.json

Names and operator shapes whose meaning the verifier knows (contracts of this project, vstd, the lemmas of
00_shim.vspec), from the unchanged tree plus an audited list. A failed obligation in a function that uses
anything else may be the verifier's ignorance rather than the code's fault: check.py then lets the bounded
replay decide instead of alarming on the obligation alone."""
import json, sys
m = json.load(open(sys.argv[1]))
uses = set(u for f in m["fns"] for u in f.get("uses", []))
STD = """.first .last .get .split_at .split_at_mut .ok .min .is_empty .append .truncate .to_string .as_slice .as_bytes
.push .pop .len .clear .is_some .is_none .is_ok .is_err .unwrap .expect .insert .remove .swap
.checked_add .checked_sub .checked_mul .wrapping_add .wrapping_sub .wrapping_mul .saturating_add .saturating_sub
.as_ref .into .try_into .ok_or .unwrap_or .unwrap_or_default .and .or .as_millis .as_micros .as_nanos .subsec_nanos .subsec_millis .subsec_micros .copy_from_slice .is_nan .to_bits .extend_from_slice .cloned .clone
mem::swap mem::replace mem::take mem::drop String::from String::new Vec::new Vec::with_capacity
Some Ok Err None u8::from u16::from u32::from u64::from usize::from u8::try_from u16::try_from u32::try_from u64::try_from
drop swap replace""".split()
loops = {f["key"]: f["loops"] for f in m["fns"] if f.get("loops")}
json.dump({"uses": sorted(uses | set(STD)), "loops": loops}, sys.stdout, indent=0)
