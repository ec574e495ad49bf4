"""Entry point: run.py <property> <tier>"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

WHERE = {
    "C01": "chk_eval", "C02": "chk_ens", "C03": "chk_ens", "C04": "chk_files", "C05": "chk_chunks",
    "C06": "chk_chunks", "C07": "chk_files", "C08": "chk_ens", "C09": "chk_dist", "C10": "chk_dist",
    "C11": "chk_dist", "C12": "chk_dist", "C13": "chk_code", "C14": "chk_code", "C15": "chk_dist",
    "C16": "chk_conv", "C17": "chk_metrics", "C18": "chk_metrics", "C19": "chk_metrics", "C20": "chk_metrics",
    "C21": "chk_reg", "C22": "chk_law", "C23": "chk_law", "C24": "chk_plot", "C25": "chk_ens", "C26": "chk_table",
}


def run(ctx):
    """Run the check of the property"""
    mod = importlib.import_module(WHERE[ctx.prop])
    getattr(mod, "run_" + ctx.prop.lower())(ctx)


if __name__ == "__main__":
    common.main(sys.argv[1], sys.argv[2], run)
