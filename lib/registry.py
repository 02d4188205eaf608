import c_cap, c_comp, c_native, c_shell

CHECKS = {c.id: c for c in (c_native.C01, c_native.C02, c_native.C03, c_native.C04, c_native.C17,
                            c_shell.C05, c_shell.C06, c_shell.C07, c_shell.C08, c_shell.C09, c_shell.C10, c_shell.C18, c_comp.C11, c_comp.C12, c_comp.C13, c_comp.C14, c_comp.C15, c_cap.C16)}


def get(pid):
    return CHECKS[pid]()
