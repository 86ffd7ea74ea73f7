"""python run.py <property> [quick|thorough]   |   python run.py replay <file>"""
import json
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import gs  # noqa: E402,F401
import vlib  # noqa: E402

CHECKS = {}


def register(mod, props):
    for p in props:
        CHECKS[p] = mod


register("check_pc", ["C01", "C02", "C03", "C04"])
register("check_rgbd", ["C05", "C06", "C07"])
register("check_geo", ["C08", "C15", "C16"])
register("check_fusion", ["C09", "C10", "C11"])
register("check_icp", ["C14"])
register("check_slam", ["C12", "C13"])
register("check_cfg", ["C17", "C18"])
register("check_assoc", ["C19"])
register("check_ds", ["C20", "C21", "C22"])
register("check_grad", ["C23"])
register("check_geodiff", ["C24"])
register("check_icpdiff", ["C25"])
register("check_ragged", ["C26"])
register("check_vis", ["C27"])


def call(ctx):
    __import__(CHECKS[ctx.prop])
    sys.modules[CHECKS[ctx.prop]].check(ctx)


if __name__ == "__main__":
    vlib.main(dict((p, call) for p in CHECKS))
