#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, c_core, c_scalar, c_types, c_deep, c_tags, c_fault, c_handlers, c_args, c_calls, c_scale, c_units, c_go, c_suites, c_entries
TABLE = {"C01": c_core.c01, "C02": c_core.c02, "C03": c_scalar.c03, "C04": c_scalar.c04, "C05": c_scalar.c05,
         "C06": c_types.c06, "C07": c_types.c07,
         "C08": c_deep.c08, "C09": c_deep.c09, "C10": c_deep.c10, "C11": c_deep.c11,
         "C12": c_fault.c12, "C13": c_tags.c13, "C14": c_tags.c14, "C15": c_handlers.c15, "C16": c_calls.c16, "C17": c_args.c17,
         "C18": c_units.c18, "C19": c_units.c19, "C20": c_go.c20, "C21": c_go.c21, "C22": c_go.c22, "C23": c_scale.c23, "C24": c_suites.c24, "C25": c_entries.c25}
if __name__ == "__main__":
    sys.exit(vlib.main(TABLE))
