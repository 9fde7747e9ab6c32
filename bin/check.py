#!/usr/bin/env python3
"""check.py <property>: decides one property (tier and seed from VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
TABLE = {
    "C03": ("p_sinks", "model_checking"), "C06": ("p_sinks", "model_checking"), "C07": ("p_sinks", "model_checking"),
    "C01": ("p_octree", "model_checking"), "C02": ("p_octree", "model_checking"),
    "C04": ("p_octree", "model_checking"), "C05": ("p_octree", "model_checking"),
    "C08": ("p_sinks", "model_checking"), "C09": ("p_sinks", "model_checking"),
    "C10": ("p_sdf", "model_checking"), "C11": ("p_sdf", "model_checking"), "C12": ("p_sdf", "model_checking"),
    "C13": ("p_sdf", "model_checking"), "C14": ("p_sdf", "model_checking"),
    "C16": ("p_sdf", "model_checking"),
    "C24": ("p_sdf", "model_checking"),
    "C25": ("p_sdf", "model_checking"),
    "C18": ("p_imp", "model_checking"),
    "C19": ("p_imp", "model_checking"),
    "C20": ("p_imp", "model_checking"),
    "C15": ("p_parts", "model_checking"), "C23": ("p_parts", "model_checking"),
    "C17": ("p_alg", "model_checking"), "C21": ("p_alg", "model_checking"), "C22": ("p_alg", "model_checking"),
}
if __name__ == "__main__":
    prop = sys.argv[1]
    mod, level = TABLE[prop]
    lib.main(prop, level, getattr(importlib.import_module(mod), prop))
