package main

type Prop struct {
	Jobs []Job
}

func jobs(dir string, fns ...string) []Job {
	var out []Job
	for _, f := range fns {
		out = append(out, Job{Dir: dir, Fn: f})
	}
	return out
}

// arith marks harnesses with integer assertions (v.Int).
func arith(dir string, fns ...string) []Job {
	js := jobs(dir, fns...)
	for i := range js {
		js[i].Arith = true
	}
	return js
}

func thorough(js ...Job) []Job {
	for i := range js {
		js[i].Tier = "thorough"
	}
	return js
}

func join(js ...[]Job) []Job {
	var out []Job
	for _, j := range js {
		out = append(out, j...)
	}
	return out
}

// edSubst replaces the group and scalar functions by uninterpreted ones (see harness/ed).
var edSubst = map[string]string{
	edPkg + ".GeScalarMultBase":                     virtPkg + "/ed.GeScalarMultBase",
	"(*" + edPkg + ".ExtendedGroupElement).ToBytes": virtPkg + "/ed.ToBytes",
	edPkg + ".ScReduce":                             virtPkg + "/ed.ScReduce",
	edPkg + ".ScMulAdd":                             virtPkg + "/ed.ScMulAdd",
}

var b58Subst = map[string]string{
	"github.com/btcsuite/btcutil/base58.Encode": virtPkg + "/byron.B58Encode",
	"github.com/btcsuite/btcutil/base58.Decode": virtPkg + "/byron.B58Decode",
}

// geSubst replaces the field operations by polynomial arithmetic (harness/ge).
func geSubst(dir string) map[string]string {
	return map[string]string{
		edPkg + ".FeMul":     virtPkg + "/" + dir + ".ShimMul",
		edPkg + ".FeSquare":  virtPkg + "/" + dir + ".ShimSquare",
		edPkg + ".FeSquare2": virtPkg + "/" + dir + ".ShimSquare2",
		edPkg + ".FeAdd":     virtPkg + "/" + dir + ".ShimAdd",
		edPkg + ".FeSub":     virtPkg + "/" + dir + ".ShimSub",
		edPkg + ".FeNeg":     virtPkg + "/" + dir + ".ShimNeg",
	}
}

// multSubst replaces the group operations by arithmetic on multiples of the base point.
var multSubst = map[string]string{
	edPkg + ".selectPoint":                                virtPkg + "/ge.MSelect",
	edPkg + ".geMixedAdd":                                 virtPkg + "/ge.MMixedAdd",
	edPkg + ".geMixedSub":                                 virtPkg + "/ge.MMixedSub",
	"(*" + edPkg + ".ExtendedGroupElement).Zero":          virtPkg + "/ge.ExtZero",
	"(*" + edPkg + ".ProjectiveGroupElement).Zero":        virtPkg + "/ge.ProjZero",
	"(*" + edPkg + ".ExtendedGroupElement).Double":        virtPkg + "/ge.MExtDouble",
	"(*" + edPkg + ".ProjectiveGroupElement).Double":      virtPkg + "/ge.MProjDouble",
	"(*" + edPkg + ".CompletedGroupElement).ToExtended":   virtPkg + "/ge.MToExtended",
	"(*" + edPkg + ".CompletedGroupElement).ToProjective": virtPkg + "/ge.MToProjective",
	"(*" + edPkg + ".ExtendedGroupElement).ToProjective":  virtPkg + "/ge.MExtToProj",
}

func expSubst(dir string) map[string]string {
	return map[string]string{
		edPkg + ".FeMul":    virtPkg + "/" + dir + ".XMul",
		edPkg + ".FeSquare": virtPkg + "/" + dir + ".XSquare",
	}
}

var decSubst = map[string]string{
	edPkg + ".FeMul":        virtPkg + "/gp.ShimMul",
	edPkg + ".FeSquare":     virtPkg + "/gp.ShimSquare",
	edPkg + ".FeSquare2":    virtPkg + "/gp.ShimSquare2",
	edPkg + ".FeAdd":        virtPkg + "/gp.ShimAdd",
	edPkg + ".FeSub":        virtPkg + "/gp.ShimSub",
	edPkg + ".FeNeg":        virtPkg + "/gp.ShimNeg",
	edPkg + ".FeFromBytes":  virtPkg + "/gp.DFromBytes",
	edPkg + ".FeToBytes":    virtPkg + "/gp.DToBytes",
	edPkg + ".fePow22523":   virtPkg + "/gp.DPow",
	edPkg + ".FeIsNonZero":  virtPkg + "/gp.DIsNonZero",
	edPkg + ".FeIsNegative": virtPkg + "/gp.DIsNegative",
}

// dblSubst replaces the group operations by arithmetic on combinations of two points.
var dblSubst = map[string]string{
	edPkg + ".slide":      virtPkg + "/gv.DSlide",
	edPkg + ".geAdd":      virtPkg + "/gv.DAdd",
	edPkg + ".geSub":      virtPkg + "/gv.DSub",
	edPkg + ".geMixedAdd": virtPkg + "/gv.DMixedAdd",
	edPkg + ".geMixedSub": virtPkg + "/gv.DMixedSub",
	"(*" + edPkg + ".ProjectiveGroupElement).Zero":        virtPkg + "/gv.ProjZero",
	"(*" + edPkg + ".ExtendedGroupElement).ToCached":      virtPkg + "/gv.ToCached",
	"(*" + edPkg + ".ExtendedGroupElement).Double":        virtPkg + "/gv.DExtDouble",
	"(*" + edPkg + ".ProjectiveGroupElement).Double":      virtPkg + "/gv.DProjDouble",
	"(*" + edPkg + ".CompletedGroupElement).ToExtended":   virtPkg + "/gv.DToExtended",
	"(*" + edPkg + ".CompletedGroupElement).ToProjective": virtPkg + "/gv.DToProjective",
}

var encSubst = map[string]string{
	edPkg + ".FeMul":     virtPkg + "/gp.TMul",
	edPkg + ".FeInvert":  virtPkg + "/gp.TInvert",
	edPkg + ".FeToBytes": virtPkg + "/gp.TToBytes",
}

// worldSubst replaces the operating system and encoding/json by their models
// (harness/world, harness/jm).
var worldSubst = map[string]string{
	"encoding/json.Unmarshal":            virtPkg + "/jm.Unmarshal",
	"encoding/json.Marshal":              virtPkg + "/jm.Marshal",
	"encoding/json.MarshalIndent":        virtPkg + "/jm.MarshalIndent",
	"encoding/json.NewDecoder":           virtPkg + "/jm.NewDecoder",
	"(*encoding/json.Decoder).Decode":    virtPkg + "/jm.Decode",
	"encoding/json.NewEncoder":           virtPkg + "/jm.NewEncoder",
	"(*encoding/json.Encoder).Encode":    virtPkg + "/jm.Encode",
	"(*encoding/json.Encoder).SetIndent": virtPkg + "/jm.SetIndent",
	"(*os.File).Read":                    virtPkg + "/world.FileRead",
	"os.ReadFile":                        virtPkg + "/world.ReadFile",
	"os.WriteFile":                       virtPkg + "/world.WriteFile",
	"os.Open":                            virtPkg + "/world.Open",
	"os.Create":                          virtPkg + "/world.Create",
	"os.CreateTemp":                      virtPkg + "/world.CreateTemp",
	"os.TempDir":                         virtPkg + "/world.TempDir",
	"os.Remove":                          virtPkg + "/world.Remove",
	"os.NewFile":                         virtPkg + "/world.NewFile",
	"(*os.File).Name":                    virtPkg + "/world.FileName",
	"(*os.File).Write":                   virtPkg + "/world.FileWrite",
	"(*os.File).WriteString":             virtPkg + "/world.FileWriteString",
	"(*os.File).Close":                   virtPkg + "/world.FileClose",
	"(*os.File).Sync":                    virtPkg + "/world.FileSync",
	"os/exec.Command":                    virtPkg + "/world.CmdNew",
	"os/exec.CommandContext":             virtPkg + "/world.CmdNewContext",
	"(*os/exec.Cmd).Run":                 virtPkg + "/world.CmdRun",
	"(*os/exec.Cmd).Output":              virtPkg + "/world.CmdOutput",
}

// bfSubst replaces blockfrost-go's client and net/http's by their models.
var bfSubst = map[string]string{
	"github.com/blockfrost/blockfrost-go.NewAPIClient": virtPkg + "/world.NewAPIClient",
	"(*net/http.Client).Do":                            virtPkg + "/world.ClientDo",
	"os.NewFile":                                       virtPkg + "/world.NewFile",
}

const edPkg = "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"

func subst(m map[string]string, js []Job) []Job {
	for i := range js {
		js[i].Subst = m
	}
	return js
}

func nomerge(js []Job) []Job {
	for i := range js {
		js[i].NoMerge = true
	}
	return js
}

var scalarJobs = join(arith("sc", "H_reduce", "H_muladd", "H_muladd_alias"), jobs("sc", "H_minimal"))

var fieldJobs = join(arith("sc", "H_mul", "H_square", "H_square2", "H_addsub", "H_alias", "H_alias_add", "H_from", "H_to"),
	jobs("sc", "H_move"),
	subst(map[string]string{edPkg + ".FeToBytes": virtPkg + "/sc.StoreBytes"}, jobs("sc", "H_predicates")))

// groupJobs: what needs private names is in harness/ge, the rest in harness/gp.
var groupJobs = join(
	subst(geSubst("ge"), arith("ge", "H_mixedadd", "H_mixedsub", "H_add", "H_sub")),
	subst(geSubst("gp"), arith("gp", "H_double", "H_complete")),
	arith("gp", "H_zero"),
	arith("ge", "H_consts", "H_select", "H_bi"),
	subst(multSubst, arith("ge", "H_mult")),
	subst(expSubst("gp"), arith("gp", "H_invert")),
	subst(expSubst("ge"), arith("ge", "H_pow22523")),
	subst(encSubst, arith("gp", "H_tobytes")))

var props = map[string]*Prop{
	"C01": {
		Jobs: join(jobs("addr", "H_base", "H_enterprise", "H_reward", "H_pointer", "H_pointer_slot", "H_pointer_tx", "H_pointer_cert", "H_convert", "H_keep"), thorough(jobs("addr", "H_pointer_all")...)),
	},
	"C02": {Jobs: join(jobs("addr", "H_decode", "H_decode_ptr", "H_decode_ptr_wide", "H_decode_hex", "H_decode_badhex", "H_decode_hextail"), thorough(jobs("addr", "H_decode_ptr_long")...))},
	"C03": {Jobs: jobs("addr", "H_text_base", "H_text_enterprise", "H_text_reward", "H_text_pointer", "H_text_pointer_long", "H_text_two")},
	"C04": {Jobs: join(jobs("b32", "H_encode", "H_encode_addr", "H_encode_big", "H_encode_hrp", "H_keep"), thorough(jobs("b32", "H_encode_long")...))},
	"C05": {Jobs: join(jobs("b32", "H_any", "H_any_addr", "H_mixed", "H_nonascii", "H_upper", "H_one", "H_two", "H_swap"), thorough(jobs("b32", "H_any_long", "H_two_all")...))},
	"C06": {Jobs: join(jobs("byron", "H_encode", "H_encode_short", "H_checksum", "H_checksum_hex", "H_hash_len", "H_type", "H_wrap", "H_inner_wrap", "H_inner_kind", "H_crc_kind", "H_keep", "H_byron_testnet"), subst(b58Subst, jobs("byron", "H_text")), nomerge(jobs("byron", "H_any", "H_inner_any")), nomerge(thorough(jobs("byron", "H_any_long", "H_inner_any_long")...)))},
	"C07": {Jobs: jobs("addr", "H_nat_roundtrip", "H_nat_decode", "H_nat_keep")},
	"C08": {Jobs: join(jobs("addr", "H_cbor_base", "H_cbor_enterprise", "H_cbor_reward", "H_cbor_pointer", "H_cbor_keep"), jobs("txs", "H_counts"), thorough(jobs("addr", "H_cbor_pointer_all")...))},
	"C09": {Jobs: join(jobs("txs", "H_fields", "H_counts", "H_many", "H_input_hex", "H_witness", "H_stale_bytes", "H_two_bytes", "H_shared"), thorough(jobs("txs", "H_fields_all")...))},
	"C10": {Jobs: join(jobs("txs", "H_id", "H_stale_id", "H_two_id", "H_meta_plain", "H_meta_change"), []Job{{Dir: "txs", Fn: "H_meta_map", MapRepeat: 60}, {Dir: "txs", Fn: "H_meta_map3", MapRepeat: 60, Tier: "thorough"}})},
	"C11": {Jobs: subst(edSubst, jobs("txs", "H_build", "H_build_many", "H_build_256", "H_rebuild", "H_build_meta", "H_build_two", "H_build_kept"))},
	"C12": {Jobs: nomerge(subst(edSubst, jobs("txs", "H_change_amounts", "H_change_kinds", "H_change_many", "H_change_array", "H_change_params", "H_change_fixed", "H_change_wide", "H_change_asked")))},
	"C13": {Jobs: nomerge(subst(edSubst, jobs("txs", "H_cover_amounts", "H_cover_kinds", "H_cover_many", "H_cover_array", "H_cover_params", "H_cover_fixed", "H_cover_wide", "H_cover_asked")))},
	"C14": {Jobs: join(jobs("txs", "H_query", "H_query_shape"), nomerge(jobs("txs", "H_query_sizes")), thorough(jobs("txs", "H_query_three")...))},
	"C15": {Jobs: jobs("txs", "H_fee", "H_fee_meta", "H_fee_shapes", "H_stale_fee", "H_two_fee")},
	"C16": {Jobs: join(subst(edSubst, jobs("keys", "H_derive_hard", "H_derive_soft", "H_derive_path", "H_derive_two", "H_public", "H_public_keep")), groupJobs, fieldJobs)},
	"C17": {Jobs: jobs("keys", "H_seed", "H_seed_cap", "H_entropy", "H_clamp", "H_root_keep")},
	"C18": {Jobs: join(subst(edSubst, jobs("keys", "H_sign", "H_sign_block", "H_sign_nil", "H_sign_two")), scalarJobs, groupJobs, fieldJobs)},
	"C23": {Jobs: join(subst(worldSubst, jobs("node", "H_cli_args", "H_cli_twice", "H_cli_row", "H_cli_range", "H_cli_rows", "H_cli_bad", "H_cli_fail", "H_cli_json", "H_cli_submit", "H_cli_notemp", "H_cli_badjson", "H_cli_unserializable", "H_cli_path", "H_cli_leftover", "H_cli_keep", "H_cli_again")), nomerge(subst(worldSubst, jobs("node", "H_cli_any"))))},
	"C24": {Jobs: subst(bfSubst, jobs("node", "H_bf_utxo", "H_bf_range", "H_bf_many", "H_bf_bad", "H_bf_params", "H_bf_params_bad", "H_bf_tip", "H_bf_fail", "H_bf_submit", "H_bf_down", "H_bf_unserializable", "H_bf_keep", "H_bf_again"))},
	"C25": {Jobs: subst(worldSubst, jobs("node", "H_load", "H_load_all", "H_load_version", "H_load_range", "H_load_bad", "H_load_twice"))},
	"C26": {Jobs: subst(edSubst, jobs("txs", "H_unserializable", "H_unserializable_fee"))},
	"C27": {Jobs: nomerge(subst(edSubst, jobs("txs", "H_min_amounts", "H_min_kinds", "H_min_many", "H_min_array", "H_min_params", "H_min_fixed", "H_min_wide", "H_min_asked")))},
	"C28": {Jobs: nomerge(join(jobs("conc", "H_address_bytes", "H_address_text", "H_group"), subst(edSubst, jobs("conc", "H_keys", "H_tx")), subst(worldSubst, jobs("node", "H_cli_both", "H_load_both")), subst(bfSubst, jobs("node", "H_bf_both"))))},
	"C19": {Jobs: scalarJobs},
	"C20": {Jobs: fieldJobs},
	"C21": {Jobs: groupJobs},
	"C29": {Jobs: join(nomerge(subst(decSubst, arith("gp", "H_frombytes"))), subst(expSubst("ge"), arith("ge", "H_pow22523")), arith("sc", "H_to_wide"), nomerge(subst(dblSubst, arith("gv", "H_double_mult"))), jobs("gv", "H_slide"), thorough(jobs("gv", "H_slide_long")...), groupJobs, fieldJobs)},
	"C22": {Jobs: jobs("keys", "H_from", "H_hash", "H_hash_two", "H_from_two")},
}
