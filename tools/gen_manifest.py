"""Regenerates /verif/MANIFEST.json (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; behaviours it generates are replayed on the real code"
NOTE = {
    "P01": (T + " (RarSet.tla, OldSrr.tla)", "Exhaustive within the model bounds (files x units x volume capacities x naming x optional blocks); "
            "byte-exact rebuild compared for a seeded sample of the behaviours. Trusts the harness' RAR writer (validated against unrar)."),
    "P02": (T + " (SrrList.tla, SrrCreate.tla, RarSet.tla)", "Listing of real SRRs compared with the listing the specification derives, in bounded scopes."),
    "P03": (T + " (SrrStore.tla), recorded edit histories are checked against SrrStoreTrace.tla", "Every bounded edit history of the model; SRR bytes compared after every edit."),
    "P04": ("TLA+ protocol model (SrrEditCrash.tla) checked with TLC; directory snapshots recorded under injected faults and kills are checked against SrrEditTrace.tla",
            "All audited file operations and a sample of write positions are failed/killed for 8 edits. Process kill only: no power-failure model."),
    "P05": (T + " (Extract.tla)", "All bounded combinations of hostile name elements, options and consent; containment judged on the file tree of an unprivileged process in a scratch directory."),
    "P06": (T + " (Rebuild.tla, Verify.tla, Stuffed.tla, Fake.tla)", "Bounded layouts x source states x hints x options; zero-padded last records."),
    "P07": (T + " (RarStream.tla, RarSet.tla)", "Exhaustive to 2 operations over 3 chunks and random to 12 operations over 5-6 chunks; real streams compared with the plain file."),
    "P08": (T + " (VolNames.tla)", "Whole chains incl. carries; bounded listings of mixed sets."),
    "P09": (T + " (Sfv.tla)", "Bounded SFV documents over adversarial lines; entries, order and comparisons compared."),
    "P10": (T + " (Sample.tla)", "Containers built by an independent writer from the model's layouts; byte-exact rebuild."),
    "P11": (T + " (Music.tla, StreamCut.tla)", "All tag combinations of the model; byte-exact rebuild."),
    "P12": (T + " (Sample.tla, SampleResult.tla)", "All bounded damage x option combinations; exit status and directory contents compared with the model."),
    "P13": (T + " (Create.tla)", "All bounded fault x option combinations; directory contents compared with the model."),
    "P14": (T + " (Oso.tla, Crc.tla, Finger.tla)", "CRC algebra model-checked on a small polynomial; hashes compared on sampled sizes."),
    "P15": (T + " (Damage.tla)", "Every truncation point and header corruption of sampled files; termination is judged with a time limit."),
    "P16": (T + " (Merge.tla)", "Bounded lists of SRRs; byte comparison with the model's token list."),
    "P17": (T + " (Usenet.tla, NntpFile.tla, Yenc.tla)", "Bounded posts (sets, articles, servers, article faults, options) replayed with the real command line against local NNTP servers; stream reads and yEnc frames replayed on the real classes. Articles of a file have the same size but the last."),
    "P18": (T + " (Nzb.tla)", "Bounded NZB documents; parsed and rewritten objects compared."),
    "P19": (T + " (Rebuild.tla)", "Bounded placements, hints and volume selections; byte-exact rebuild."),
    "P20": (T + " (Release.tla, Scan.tla, SfvClass.tla, Subs.tla)", "Releases of up to 25 catalogue items, folder trees of up to 14 folders and up to 4 SFVs with all name, folder and option classes; SRR contents, order, untouched tree and exit status compared."),
    "P21": (T + " (RarTools.tla)", "Bounded catalogues, thread limits and archive histories; the RAR executables are stand-ins with known output (no rar here) that record how they are called; the whole candidate sequence, volumes, exit status and temporary folders compared."),
    "P22": (T + " (Retag.tla)", "Up to 5 stored items with all placements, options and answers; output and input folders and exit status compared."),
    "P23": (T + " (Batch.tla)", "Up to 6 entries per folder for each of six tools, all bounded entry kinds and options (sampled); listings and folder contents compared."),
    "P24": (T + " (Life.tla)", "All histories of up to 4 (thorough: 5) operations for one RAR set and random ones of 14 operations for up to two, each with a full recreation and a new scan at the end, carried out with the real tools (sampled); "
            "release directory, SRR and unpacked files compared after every operation."),
}
CLAIMED = [l.strip() for l in open(os.path.join(HERE, "tools", "claimed.txt")) if l.strip()]
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "technique": NOTE[p][0], "level": "fault_enumeration" if p == "P04" else "model_checking", "level_note": NOTE[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "no check yet"})
m["notes"] = "No hooks: the code is observed through its public functions, command lines, audit events and the file system."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
