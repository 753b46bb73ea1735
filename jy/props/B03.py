import glue, ref, mc, alphabet, codec
from codec import Codec

RULE = "one case per group of values (every field densely over backgrounds, corner pairs, all addressee shapes), of encodings (every byte replaced by every value, all pairs of flipped bits) and per truncation; non-trivial: distinct encodings decoded"
ASSUMPTIONS = ["reference: ref.enc_status"]

CODECS = {"status": Codec("status", ref.enc_status, ref.dec_status, glue.status, glue.r_status, glue.Status.parse)}

def cases(tier):
  bases = [ref.enc_status(s) for s in alphabet.statuses(tier, True)]
  for c in codec.cases_for("status", None, alphabet.statuses(tier), bases, tier): yield c

def run(case, ctx): codec.run_cases(CODECS, case, ctx)
