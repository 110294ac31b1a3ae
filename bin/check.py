#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

MODULES = dict(C05="m_shares", C06="m_shares", C07="m_shares", C08="m_shares", C10="m_shares", C12="m_shares",
               C02="m_join", C03="m_join", C04="m_join", C01="m_ident", C25="m_ident",
               C13="m_comm", C14="m_comm", C15="m_comm", C16="m_notify", C19="m_store", C20="m_store")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        importlib.import_module(MODULES[prop]).check(ctx)
    except vlib.Broken as e:
        print("CHECK BROKEN:", e, flush=True)
        ctx.finish()
        sys.exit(2 if not ctx.violations else 1)
    sys.exit(ctx.finish())


main()
