"""What each check runs."""
import json, os


def scenarios(run, n_quick, n_thorough):
    """Random scenarios -> what the specification prescribes -> the real code."""
    n = n_quick if run.quick else n_thorough
    run.build("sp")
    rounds = 1 if run.quick else 4
    for i in range(rounds):
        seed = run.seed + 1000 * i
        scn, exp, rep = run.path(f"scn{i}.ndjson"), run.path(f"exp{i}.ndjson"), run.path(f"rep{i}.json")
        run.bin("hsp", ["gen", run.prop, seed, n // rounds, scn])
        run.evaluate("EvalProto", scn, exp, label=f"EvalProto{i}")
        run.bin("hsp", ["run", run.prop, seed, scn, exp, rep])
        run.report(rep)


def replayed(run, module, binary, what, n_quick, n_thorough, crate="sp"):
    """Generated cases -> decided by the specification -> compared with the real code."""
    n = n_quick if run.quick else n_thorough
    run.build(crate)
    rounds = 1 if run.quick else 4
    for i in range(rounds):
        seed = run.seed + 1000 * i
        scn, exp, rep = run.path(f"{what}_scn{i}.ndjson"), run.path(f"{what}_exp{i}.ndjson"), run.path(f"{what}_rep{i}.json")
        run.bin(binary, ["gen", what, seed, n // rounds, scn])
        run.evaluate(module, scn, exp, label=f"{module}{i}")
        run.bin(binary, ["run", what, seed, scn, exp, rep])
        run.report(rep)


def behaviours(run, module, binary, what, sels, depth, as_what=None, timeout=700):
    """Every behaviour of the specification up to a depth, over small universes, replayed."""
    uni = run.path(f"{what}_universes.ndjson")
    n = max(sels)
    run.bin(binary, ["gen", what, run.seed, n, uni])
    lines = [json.loads(l) for l in open(uni)]
    scn, exp, rep = run.path(f"{what}_all_scn.ndjson"), run.path(f"{what}_all_exp.ndjson"), run.path(f"{what}_all_rep.json")
    k = 0
    with open(scn, "w") as fs, open(exp, "w") as fe:
        for sel in sels:
            _, out = run.tlc(module, env={"SCN": uni}, consts=dict(Sel=sel, Depth=depth), label=f"{module}_{sel}", timeout=timeout)
            u = lines[sel - 1]
            for o in run.outs(out):
                fs.write(json.dumps({**u, "id": k, "ops": [u["ops"][i - 1] for i in o["ops"]]}) + "\n")
                fe.write(json.dumps({"id": k, **{f: o[f] for f in o if f not in ("sel", "ops")}}) + "\n")
                k += 1
    if k == 0:
        raise run.Broken(f"{module}: no behaviours")
    run.bin(binary, ["run", as_what or run.prop, run.seed, scn, exp, rep])
    run.report(rep)
    run.counts["behaviours replayed exhaustively"] = run.counts.get("behaviours replayed exhaustively", 0) + k
    for f in (scn, exp):
        os.remove(f)


def sendscan(run, ins, pays, decoys, full):
    """The protocol as a state machine, explored completely within the bounds."""
    run.tlc("MC_SendScan", label=f"MC_SendScan_{ins}{pays}{decoys}{full}", timeout=850,
            consts=dict(MaxIns=ins, MaxPays=pays, MaxDecoys=decoys, UseCatalogue=full))


def c01(run):
    sendscan(run, 2, 2, 1, 0)
    if not run.quick:
        sendscan(run, 2, 3, 1, 0)
    scenarios(run, 1500, 20000)
    run.require(scans_with_payment=500, labelled_payments=200)


def c02(run):
    sendscan(run, 2, 1, 1, 1)
    if not run.quick:
        sendscan(run, 2, 2, 1, 1)
    scenarios(run, 2000, 20000)
    run.require(scans_reporting_outputs=300, scans_reporting_nothing=1000)


def c03(run):
    sendscan(run, 1, 3, 0, 0)
    if not run.quick:
        sendscan(run, 2, 3, 0, 1)
    scenarios(run, 2000, 20000)
    run.require(sender_status_ok=500, sender_status_zero=40, sender_status_noeligible=40)


def c04(run):
    sendscan(run, 3, 0, 0, 1)
    scenarios(run, 2500, 30000)
    run.require(eligible_pkh=100, eligible_sh=100, eligible_tr=100, eligible_wpkh=100, ineligible_inputs=1000)


def c05(run):
    sendscan(run, 3, 0, 0, 1)
    if not run.quick:
        sendscan(run, 2, 2, 1, 1)
    scenarios(run, 2000, 20000)
    run.require(transactions_with_status_ok=1000, transactions_with_status_zero=50)


def c06(run):
    """Strings: the whole neighbourhood of short codes, then real codes and corruptions of them."""
    run.tlc("MC_Code", consts=dict(KeyBytes=4, Doubles=0), label="MC_Code_4")
    if not run.quick:
        run.tlc("MC_Code", consts=dict(KeyBytes=4, Doubles=1), label="MC_Code_4_2", timeout=850)
        run.tlc("MC_Code", consts=dict(KeyBytes=66, Doubles=0), label="MC_Code_66", timeout=850)
    replayed(run, "EvalCode", "hsp", "C06", 1600, 16000)
    run.require(**{"encoded_codes": 100, "valid:_valid": 50, "valid:_upper_case": 50, "invalid:_mixed_case": 50,
                   "invalid:_padding": 20, "invalid:_substituted_characters": 100, "invalid:_version_and_length": 50,
                   "valid:_version_and_length": 10, "invalid:_degenerate": 50, "invalid:_invalid_keys": 20})


def c07(run):
    """Labels in every place that computes them, then payments to labelled codes."""
    sendscan(run, 1, 2, 1, 0)
    run.build("sp")
    replayed(run, "EvalLabels", "hsp", "labels", 600, 6000)
    scenarios(run, 700, 8000)
    run.require(labels=1500, labels_added_again=200, labelled_payments=300)


def c08(run):
    run.tlc("MC_Psbt")
    if not run.quick:
        run.tlc("MC_Psbt", label="MC_Psbt_3", consts=dict(MaxOuts=3, MaxRecips=3), timeout=850)
    replayed(run, "EvalPsbt", "hsp", "C08", 1500, 16000)
    run.require(derivation_ok_=800, placeholders=1000, scans_with_payment=800)


def c09(run):
    run.tlc("MC_Psbt")
    if not run.quick:
        run.tlc("MC_Psbt", label="MC_Psbt_3", consts=dict(MaxIns=3, MaxOuts=1, MaxRecips=1), timeout=850)
    replayed(run, "EvalPsbt", "hsp", "C09", 2000, 20000)
    run.require(derivation_err_missing=50, derivation_err_mismatch=50, derivation_err_witness=30, derivation_err_prevout=50,
                derivation_err_counts=50, derivation_err_zero=20, derivation_err_noeligible=20, derivation_err_future=20,
                derivation_ok_=100)


def c10(run):
    run.tlc("MC_Psbt")
    replayed(run, "EvalPsbt", "hsp", "C10", 1500, 15000)
    run.require(signatures=500, signatures_among_several_inputs=300)


def c11(run):
    run.tlc("MC_Dleq", consts=dict(Changes=1 if run.quick else 2))
    replayed(run, "EvalDleq", "hdleq", "C11", 700, 12000, crate="dleq")
    run.require(proofs_with_message=200, proofs_without_message=100)


def c12(run):
    run.tlc("MC_Dleq", consts=dict(Changes=2), timeout=850)
    replayed(run, "EvalDleq", "hdleq", "C12", 700, 12000, crate="dleq")
    run.require(altered_statements_no=5000, altered_statements_yes=700, assembled_proofs_no=200,
                assembled_proofs_yes=10, flipped_bits_no=5000)


def c16(run):
    sendscan(run, 2, 1, 1, 1)
    if not run.quick:
        sendscan(run, 2, 2, 1, 1)
    scenarios(run, 1000, 10000)
    run.require(paying_transactions=200, other_transactions=100)


def c20(run):
    sendscan(run, 3, 0, 0, 1)
    scenarios(run, 2000, 20000)
    run.require(HD_senders=200, received_output_senders=200, status_mismatch=50, status_future=5)


def c13(run):
    run.build("idx")
    behaviours(run, "MC_Index", "hidx", "mc13", [1, 2, 3, 4] if run.quick else range(1, 9), 3 if run.quick else 4)
    replayed(run, "EvalIndex", "hidx", "C13", 1500, 20000, crate="idx")
    run.require(states_with_outputs=3000, step_block=2000, step_label=1000)


def c14(run):
    run.build("idx")
    behaviours(run, "MC_Index", "hidx", "mc14", [1, 2] if run.quick else range(1, 5), 3 if run.quick else 4)
    replayed(run, "EvalIndex", "hidx", "C14", 1000, 16000, crate="idx")
    run.require(restarts=2000, change_sets_through_JSON=5000, change_sets_through_binary=5000,
                histories_continued_after_a_restart=500)


def c15(run):
    run.build("idx")
    behaviours(run, "MC_FullIndex", "hidx", "mc15", [1, 2, 3, 4] if run.quick else range(1, 9), 4)
    replayed(run, "EvalFullIndex", "hidx", "C15", 1500, 20000, crate="idx")
    run.require(states_with_outputs=3000, step_tx=5000, step_restart=1000, transactions_without_usable_input=500,
                states_with_spenders=1000, change_sets_through_JSON=2000, change_sets_through_binary=2000)


def c17(run):
    run.build("wallet")
    behaviours(run, "MC_Wallet", "hwal", "mc17", [1, 2, 3, 4] if run.quick else range(1, 9), 3 if run.quick else 4)
    replayed(run, "EvalWallet", "hwal", "C17", 1200, 16000, crate="wallet")
    run.require(states_with_confirmed_coins=3000, states_with_pending_coins=300, step_block=3000, step_chain=1000, step_address=1000)


def c18(run):
    run.build("wallet")
    behaviours(run, "MC_Wallet", "hwal", "mc18", [1, 2] if run.quick else range(1, 5), 3 if run.quick else 4)
    replayed(run, "EvalWallet", "hwal", "C18", 1000, 12000, crate="wallet")
    run.require(crash_points=2000, histories_continued_after_a_crash=300, incomplete_change_sets=500,
                change_sets_through_JSON=2000, change_sets_through_binary=2000)


def c19(run):
    run.tlc("MC_Oracle", consts=dict(NEvents=3), label="MC_Oracle_3")
    run.tlc("MC_Oracle", consts=dict(NEvents=3, NBlocks=2), props=["Finishes"], label="MC_Oracle_live")
    if not run.quick:
        run.tlc("MC_Oracle", consts=dict(NEvents=4), label="MC_Oracle_4", timeout=850)
    replayed(run, "EvalOracle", "hora", "C19", 500, 8000, crate="oracle")
    run.require(sync_points=500, matches=500, batches_with_several_matches=50, matches_without_tweaks=30, restarts=20,
                batches_made_before_the_sync_point=1)


def c21(run):
    """The real program against a node; every recorded run goes back to TLC."""
    run.build("cli")
    uni = run.path("universes.ndjson")
    sels = [1, 2, 3, 4] if run.quick else range(1, 11)
    run.bin("hcli", ["gen", "mc21", run.seed, max(sels), uni])
    hist, seen = run.path("histories.ndjson"), set()
    with open(hist, "w") as f:
        for sel in sels:
            _, out = run.tlc("MC_Cli", env={"SCN": uni}, consts=dict(Sel=sel, Depth=6 if run.quick else 7), label=f"MC_Cli_{sel}")
            for o in run.outs(out):
                line = json.dumps({"sel": o["sel"], "ops": o["ops"]})
                if line not in seen:
                    seen.add(line)
        lines = sorted(seen)
        # every history if there is time, evenly spread ones otherwise
        most = 500 if run.quick else 6000
        step = max(1, len(lines) // most)
        for line in lines[run.seed % step::step]:
            f.write(line + "\n")
    run.counts["histories of the specification"] = len(lines)
    parts = [("histories", None)] + [(f"random{i}", 1000 * i) for i in range(1 if run.quick else 4)]
    for name, off in parts:
        scn, tr, exp = (run.path(f"{name}_{x}.ndjson") for x in ("scn", "traces", "verdicts"))
        rep, rep2 = run.path(f"{name}_run.json"), run.path(f"{name}_judged.json")
        seed = run.seed + (off or 0)
        if off is None:
            run.bin("hcli", ["script", uni, hist, scn])
        else:
            run.bin("hcli", ["gen", "C21", seed, 300 if run.quick else 1500, scn])
        run.bin("hcli", ["run", "C21", seed, scn, tr, rep], timeout=840)
        run.report(rep, validated=False)
        run.evaluate("EvalCli", tr, exp, label=f"EvalCli_{name}")
        run.bin("hcli", ["judge", tr, exp, rep2])
        run.report(rep2)
    run.require(payments=150, payments_with_several_inputs=30, payments_with_change=60, payments_mined=60, step_scan=1000,
                scans_during_which_the_node_moved=50, scans_with_a_failing_node=50, blocks_scanned=2000)


def c23(run):
    """The real program against a node, a stand-in for kyoto and a tweak server; recorded runs go back to TLC."""
    run.build("cli2")
    uni = run.path("universes.ndjson")
    sels = [1, 2, 3, 4] if run.quick else range(1, 11)
    run.bin("hcli2", ["gen", "mc23", run.seed, max(sels), uni])
    hist, seen = run.path("histories.ndjson"), set()
    with open(hist, "w") as f:
        for sel in sels:
            _, out = run.tlc("MC_Cli2", env={"SCN": uni}, consts=dict(Sel=sel, Depth=5 if run.quick else 6), label=f"MC_Cli2_{sel}")
            for o in run.outs(out):
                seen.add(json.dumps({"sel": o["sel"], "ops": o["ops"]}))
        lines = sorted(seen)
        # every history if there is time, evenly spread ones otherwise
        most = 500 if run.quick else 6000
        step = max(1, len(lines) // most)
        for line in lines[run.seed % step::step]:
            f.write(line + "\n")
    run.counts["histories of the specification"] = len(lines)
    parts = [("histories", None)] + [(f"random{i}", 1000 * i) for i in range(1 if run.quick else 4)]
    for name, off in parts:
        scn, tr, exp = (run.path(f"{name}_{x}.ndjson") for x in ("scn", "traces", "verdicts"))
        rep, rep2 = run.path(f"{name}_run.json"), run.path(f"{name}_judged.json")
        seed = run.seed + (off or 0)
        if off is None:
            run.bin("hcli2", ["script", uni, hist, scn])
        else:
            run.bin("hcli2", ["gen", "C23", seed, 400 if run.quick else 1500, scn])
        run.bin("hcli2", ["run", seed, scn, tr, rep], timeout=840)
        run.report(rep, validated=False)
        run.evaluate("EvalCli2", tr, exp, label=f"EvalCli2_{name}")
        run.bin("hcli2", ["judge", tr, exp, rep2])
        run.report(rep2)
    run.require(payments=150, payments_with_several_inputs=30, payments_with_change=60, payments_mined=60, step_rpc=1000,
                payments_to_several_recipients=40, scans_during_which_the_node_moved=50, scans_with_a_failing_node=50,
                light_scans=500, light_scans_that_fail=50, light_scans_that_saw_another_branch=50, blocks_the_light_client_fetched=300,
                light_scans_from_a_chosen_height=25, payments_without_change=25, payments_to_the_change_code_without_change=3,
                scripts_derived=50)


def c22(run):
    """Requests of the specification and random ones, answered by the real program; TLC judges the answers."""
    run.build("cli")
    _, out = run.tlc("MC_Replace", consts=dict(MaxIns=2, Wide="FALSE" if run.quick else "TRUE"), props=["Ends"])
    asked = sorted(json.dumps(o, sort_keys=True) for o in run.outs(out))
    run.counts["requests of the specification"] = len(asked)
    step = max(1, len(asked) // (2500 if run.quick else 30000))
    scn = run.path("requests.ndjson")
    with open(scn, "w") as f:
        for i, line in enumerate(asked[run.seed % step::step]):
            f.write(json.dumps({"id": i, "p": json.loads(line)}) + "\n")
    run.bin("hcli", ["gen", "C22", run.seed, 1500 if run.quick else 20000, run.path("random.ndjson")])
    for i, (name, file) in enumerate([("requests", scn), ("random", run.path("random.ndjson"))]):
        tr, exp, rep, rep2 = (run.path(f"{name}_{x}") for x in ("answers.ndjson", "verdicts.ndjson", "run.json", "judged.json"))
        run.bin("hcli", ["run", "C22", run.seed + i, file, tr, rep], timeout=840)
        run.report(rep, validated=False)
        run.evaluate("EvalReplace", tr, exp, label=f"EvalReplace_{name}")
        run.bin("hcli", ["judge22", tr, exp, rep2])
        run.report(rep2)
    run.require(answers_ok=400, answers_refused=1000, payments_from_several_inputs=300, payments_from_inputs_of_one_address=30,
                requests_that_call_for_a_payment=400, requests_that_call_for_a_refusal=1000)


def c25(run):
    """The files of the real programs, with storing made to fail, crashes, and scans ended by force; TLC judges what happened."""
    for x in ("cli", "cli2", "store"):
        run.build(x)
    _, out = run.tlc("MC_Store", consts=dict(Depth=5 if run.quick else 6))
    lines = sorted({json.dumps(o) for o in run.outs(out)})
    run.counts["histories of the specification"] = len(lines)
    hist = run.path("histories.ndjson")
    with open(hist, "w") as f:
        step = max(1, len(lines) // (400 if run.quick else 6000))
        for line in lines[run.seed % step::step]:
            f.write(line + "\n")
    for name in ["random", "histories"] + ([] if run.quick else ["more"]):
        scn, tr, exp = (run.path(f"{name}_{x}.ndjson") for x in ("scn", "traces", "verdicts"))
        rep, rep2 = run.path(f"{name}_run.json"), run.path(f"{name}_judged.json")
        seed = run.seed + (1000 if name == "more" else 0)
        if name == "histories":
            run.bin("hstore", ["script", hist, scn])
        else:
            # the slow ones mostly wait
            run.bin("hstore", ["gen", seed, 700 if run.quick else 6000, 40 if run.quick else 240, scn])
        run.bin("hstore", ["run", seed, 8 if name == "histories" else 48 if run.quick else 128, scn, tr, rep], timeout=840)
        run.report(rep, validated=False)
        run.evaluate("EvalStore", tr, exp, label=f"EvalStore_{name}")
        run.bin("hstore", ["judge", tr, exp, rep2])
        run.report(rep2)
    run.require(commands_that_could_not_store=300, crashes_inside_what_was_stored=100, crashes_before_it_was_stored=60, files_repaired_by_hand=200,
                scans_ended_by_force=150, scans_ended_after_they_had_stored_something=10, scans_that_could_not_store_on_their_way=3,
                commands_refused=1000, sums_shown_on_the_way=30)


def c24(run):
    """Keys made, carried between commands and shown by both programs; TLC judges what they print and do."""
    for x in ("cli", "cli2", "store"):
        run.build(x)
    run.tlc("MC_Keys", cfg="MC_KeysAll", consts=dict(Depth=5 if run.quick else 6), label="MC_KeysAll")
    _, out = run.tlc("MC_Keys")
    lines = sorted({json.dumps(o) for o in run.outs(out)})
    run.counts["histories of the specification"] = len(lines)
    hist = run.path("histories.ndjson")
    with open(hist, "w") as f:
        step = max(1, len(lines) // (1000 if run.quick else 8000))
        for line in lines[run.seed % step::step]:
            f.write(line + "\n")
    for name in ["random", "histories"]:
        scn, tr, exp = (run.path(f"{name}_{x}.ndjson") for x in ("scn", "traces", "verdicts"))
        rep, rep2 = run.path(f"{name}_run.json"), run.path(f"{name}_judged.json")
        if name == "histories":
            run.bin("hstore", ["kscript", hist, scn])
        else:
            run.bin("hstore", ["kgen", run.seed, 1000 if run.quick else 15000, scn])
        run.bin("hstore", ["krun", run.seed, scn, tr, rep], timeout=840)
        run.report(rep, validated=False)
        run.evaluate("EvalKeys", tr, exp, label=f"EvalKeys_{name}")
        run.bin("hstore", ["kjudge", tr, exp, rep2])
        run.report(rep2)
    run.require(wallets_created_for_bitcoin=10, keys_generated_for_bitcoin=50, label_answered_ok=100, label_answered_no=200, init_answered_ok=300,
                scan_answered_no=50, scan_answered_ok=20, init_answered_no=100)


PLANS = {"C24": c24, "C25": c25, "C23": c23, "C22": c22, "C21": c21, "C19": c19, "C17": c17, "C18": c18, "C15": c15, "C13": c13, "C14": c14, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C16": c16, "C20": c20}

NOT_APPLICABLE = {}
_ORACLE = ("TLA+ specification checked with TLC; the real code replayed against what TLC derives from the specification",
           "TLC explores the specification exhaustively within the stated bounds and evaluates it on seeded random scenarios; "
           "the real code must produce exactly what the specification prescribes on each. Hashes are assumed collision free "
           "(symbolic atoms), secp256k1 and rust-bitcoin primitives are trusted; sampling beyond the exhaustive bounds.")
NOTES = {"default": _ORACLE}
