// C13: configurations
sfunc absfails(s: string): bool
sfunc abspath(s: string): string
contract filepath.Abs(p) (r, err)
  trusted
  why library: the cleaned absolute path, a function of the path (and the working directory, which nobody changes)
  ensures (err == nil <==> !absfails(p)) && (err == nil ==> r == abspath(p))

define validcfg(c: *dupi.Config): bool =
  c.SeqLen >= 1 && c.BlotConfig.SeqLen >= 1 && c.BlotConfig.Interleave >= 1 && c.SeqLen == c.BlotConfig.Interleave * c.BlotConfig.SeqLen
  && 1 <= c.NumShards && c.NumShards <= 65535 && c.NumShatters >= 1 && c.DocFlushRate >= 1 && c.TokenConfig.Name == "words.simple"

contract token.FromConfig(cfg) (fn, err)
  requires cfg != nil
  ensures[known] cfg.Name == "words.simple" <==> err == nil
  ensures[fn] err == nil ==> fn == fnof("token.Tokenize")
contract token.DefaultConfig() (r)
  ensures fresh(r) && r.Name == "words.simple"

contract (*dupi.Config).check(cfg) (err)
  requires cfg != nil
  apply div_exact(cfg.SeqLen, cfg.BlotConfig.Interleave, cfg.BlotConfig.SeqLen)
  ensures[valid] err == nil <==> validcfg(cfg)
lemma[div_exact]
  hide
  vars s: int, i: int, b: int
  hyp i >= 1
  apply div_uniq(s, i, b, 0)
  concl (s == i * b) == (s / i == b && s % i == 0)

contract dupi.DefaultConfig(root) (cfg, err)
  ensures[new] err == nil ==> cfg != nil && fresh(cfg) && validcfg(cfg) && cfg.IndexRoot == abspath(root) && cfg.BlotConfig.Interleave == 1
  ensures[accepted] !absfails(root) ==> err == nil
contract dupi.NewConfig(root, n, s) (cfg, err)
  ensures[asked] err == nil ==> cfg != nil && fresh(cfg) && validcfg(cfg) && cfg.NumShards == n && cfg.SeqLen == s && cfg.BlotConfig.SeqLen == s && cfg.IndexRoot == abspath(root)
  ensures[accepted] !absfails(root) && 1 <= n && n <= 65535 && 1 <= s ==> err == nil
  ensures[refused] (n < 1 || n > 65535 || s < 1) ==> err != nil

// JSON: reading back what was written gives the same values (valid UTF-8)
sfunc jroot(s: string): string
sfunc jtok(s: string): string
sfunc jseq(s: string): int
sfunc jshards(s: string): int
sfunc jshatters(s: string): int
sfunc jflush(s: string): int
sfunc jbseq(s: string): int
sfunc jinter(s: string): int
define holdscfg(s: string, c: *dupi.Config): bool =
  (utf8ok(c.IndexRoot) ==> jroot(s) == c.IndexRoot) && (utf8ok(c.TokenConfig.Name) ==> jtok(s) == c.TokenConfig.Name) && jseq(s) == c.SeqLen && jshards(s) == c.NumShards && jshatters(s) == c.NumShatters
  && jflush(s) == c.DocFlushRate && jbseq(s) == c.BlotConfig.SeqLen && jinter(s) == c.BlotConfig.Interleave
contract json.MarshalIndent(v, prefix, indent) (b, err)
  trusted
  why library: the JSON text of the value; reading it gives the value again (valid UTF-8 strings)
  ensures fresh(base(b)) && 0 <= len(b)
  ensures err == nil && typeis(v, "*dupi.Config") ==> len(b) > 0 && holdscfg(str(b), as("*dupi.Config", v))
contract json.Marshal(v) (b, err)
  trusted
  why library: as MarshalIndent
  ensures fresh(base(b)) && 0 <= len(b)
  ensures err == nil && typeis(v, "*dupi.Config") ==> len(b) > 0 && holdscfg(str(b), as("*dupi.Config", v))
contract json.Unmarshal(d, v) (err)
  trusted
  why library: the values found in the text
  modifies all(as("*dupi.Config", v))
  ensures err == nil && typeis(v, "*dupi.Config") ==> as("*dupi.Config", v).IndexRoot == jroot(str(d)) && as("*dupi.Config", v).TokenConfig.Name == jtok(str(d)) && as("*dupi.Config", v).SeqLen == jseq(str(d))
    && as("*dupi.Config", v).NumShards == jshards(str(d)) && as("*dupi.Config", v).NumShatters == jshatters(str(d)) && as("*dupi.Config", v).DocFlushRate == jflush(str(d)) && as("*dupi.Config", v).BlotConfig.SeqLen == jbseq(str(d)) && as("*dupi.Config", v).BlotConfig.Interleave == jinter(str(d))
// white space after the text does not matter
axiom[json_space]
  why library: white space after a JSON text is ignored
  vars s: string, t: string
  trig jroot(s), jroot(t)
  hyp len(t) == len(s) + 1 && t[len(s)] == 10 && (forall k: int {t[k]} :: 0 <= k && k < len(s) ==> t[k] == s[k])
  concl jroot(t) == jroot(s) && jtok(t) == jtok(s) && jseq(t) == jseq(s) && jshards(t) == jshards(s) && jshatters(t) == jshatters(s) && jflush(t) == jflush(s) && jbseq(t) == jbseq(s) && jinter(t) == jinter(s)

// the text of the file under a name
define ftext(path: string): string = strof(fdata[fsat[path]], 0, fsize[fsat[path]])

contract dupi.ReadConfig(path) (cfg, err)
  modifies fsat, fsize
  ensures[files] fsat == old(fsat) && fsize == old(fsize)
  ensures[read] err == nil ==> cfg != nil && fresh(cfg) && validcfg(cfg) && holdscfg(ftext(path), cfg)
contract (*dupi.Config).Write(cfg) (err)
  requires cfg != nil
  modifies fsat, fsize, fdata
  ensures[written] err == nil ==> holdscfg(ftext(pathjoin(cfg.IndexRoot, "cfg.json")), cfg)
  ensures[others] forall q: string {fsat[q]} :: q != pathjoin(cfg.IndexRoot, "cfg.json") ==> fsat[q] == old(fsat)[q]
contract dupi.ReadConfigFromRoot(root) (cfg, err)
  modifies fsat, fsize
  ensures[files] fsat == old(fsat) && fsize == old(fsize)
  ensures[read] err == nil ==> cfg != nil && fresh(cfg) && validcfg(cfg) && holdscfg(ftext(pathjoin(abspath(root), "cfg.json")), cfg)
