"""Accelerates acceptance in the (third party) Cerberus validator.

One Cerberus validation costs about a millisecond under Jython and dominates everything that is explored here.
Accepting a document that fits the one schema shape pyd7a uses is decided by the few lines below; every
other outcome (anything not accepted, any other schema shape or rule) is decided by Cerberus itself.  Custom
rules are always decided by pyd7a's own rule methods.  The first CROSSCHECK validations of a process, and
every 97th one after them, are decided by both and compared; a difference aborts the run.
"""
import cerberus
from collections import Mapping, Sequence, Iterable

CROSSCHECK = 200
stats = {"fast": 0, "slow": 0, "crosschecked": 0}

_Real = cerberus.Validator
_ints = (int, long)

class Disagreement(BaseException): pass
class _Unknown(Exception): pass

def _type_ok(t, v):
  if t == "integer": return isinstance(v, _ints)
  if t == "boolean": return isinstance(v, bool)
  if t == "string": return isinstance(v, basestring)
  if t == "list": return isinstance(v, Sequence) and not isinstance(v, basestring)
  raise _Unknown

_BUILTIN = set(("type", "nullable", "min", "max", "allowed", "minlength", "maxlength", "schema"))

def _rules_ok(self, field, rules, v):
  if v is None:
    return bool(rules.get("nullable"))
  t = rules.get("type")
  if t is not None and not _type_ok(t, v): return False
  for rule, arg in rules.iteritems():
    if rule == "type" or rule == "nullable": continue
    if rule == "min":
      if not isinstance(v, _ints): raise _Unknown
      if v < arg: return False
    elif rule == "max":
      if not isinstance(v, _ints): raise _Unknown
      if v > arg: return False
    elif rule == "allowed":
      if isinstance(v, Iterable): raise _Unknown
      if v not in arg: return False
    elif rule == "minlength":
      if t != "list" and t != "string": raise _Unknown
      if len(v) < arg: return False
    elif rule == "maxlength":
      if t != "list" and t != "string": raise _Unknown
      if len(v) > arg: return False
    elif rule == "schema":
      if t != "list": raise _Unknown
      for e in v:
        if not _rules_ok(self, field, arg, e): return False
    else:
      handler = getattr(self, "_validate_" + rule, None)
      if handler is None or hasattr(_Real, "_validate_" + rule): raise _Unknown
      failed = []
      self.__dict__["_error"] = lambda *a: failed.append(a)
      try:
        handler(arg, field, v)
      finally:
        del self.__dict__["_error"]
      if failed: return False
  return True

def _fast(self, schema, document):
  """True: accepted.  None: let Cerberus decide."""
  try:
    if len(schema) != 1 or len(document) != 1: return None
    (name, rules), = schema.items()
    if name not in document or set(rules) != set(("oneof_schema", "type")) or rules["type"] != "dict": return None
    doc = document[name]
    if type(doc) is not dict: return None
    valid = 0
    for alternative in rules["oneof_schema"]:
      ok = True
      for field, r in alternative.iteritems():
        if field in doc and not _rules_ok(self, field, r, doc[field]):
          ok = False
          break
      if ok: valid += 1
    return True if valid == 1 else None
  except (_Unknown, AttributeError, TypeError, ValueError, KeyError):
    return None

class Validator(_Real):
  def __init__(self, *args, **kwargs):
    if len(args) == 1 and kwargs == {"allow_unknown": True}: self.__dict__["_fc_args"] = (args, kwargs)
    else: _Real.__init__(self, *args, **kwargs) # created by Cerberus itself

  def __getattr__(self, name):
    if name.startswith("__") or name == "_fc_args": raise AttributeError(name)
    held = self.__dict__.pop("_fc_args", None)
    if held is None: raise AttributeError(name)
    _Real.__init__(self, *held[0], **held[1])
    return getattr(self, name)

  def validate(self, document, *args, **kwargs):
    held = self.__dict__.get("_fc_args")
    fast = None
    if held is not None:
      if not args and not kwargs and len(held[0]) == 1 and held[1] == {"allow_unknown": True}:
        fast = _fast(self, held[0][0], document)
        if fast:
          stats["fast"] += 1
          n = stats["fast"]
          if n > CROSSCHECK and n % 97: return True
          stats["crosschecked"] += 1
      self.__dict__.pop("_fc_args", None)
      _Real.__init__(self, *held[0], **held[1])
    stats["slow"] += 1
    real = _Real.validate(self, document, *args, **kwargs)
    if fast and not real: raise Disagreement(repr(document))
    return real

  __call__ = validate

def install():
  cerberus.Validator = Validator
  # crcmod builds its table anew for every function it makes (a millisecond); the functions keep no state
  import crcmod.predefined
  make, made = crcmod.predefined.mkCrcFun, {}
  def mkCrcFun(name):
    if name not in made: made[name] = make(name)
    return made[name]
  crcmod.predefined.mkCrcFun = mkCrcFun
