#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
TABLE = {"C19": ("check_lifetime", "c19"), "C18": ("check_concurrent", "check"), "C15": ("check_construct", "c15"), "C14": ("check_property", "c14"), "C13": ("check_invoke", "c13"), "C09": ("check_registry", "c09"), "C10": ("check_registry", "c10"), "C12": ("check_registry", "c12"), "C17": ("check_registry", "c17"), "C16": ("check_registry", "c16"),
         "C06": ("check_convert", "c06"), "C04": ("check_convert", "c04"), "C05": ("check_convert", "c05"),
         "C01": ("check_life", "c01"), "C02": ("check_life", "c02"),
         "C11": ("check_classes", "c11"),
         "C03": ("check_access", "c03"),
         "C07": ("check_types", "c07"), "C08": ("check_types", "c08")}
if __name__ == "__main__":
    pid = sys.argv[1]
    mod, fn = TABLE[pid]
    vlib.main(getattr(__import__(mod), fn), pid)
