import props_conc, props_seq, props_cmd
CHECKS = {}
for m in (props_conc, props_seq, props_cmd):
    for k, v in vars(m).items():
        if len(k) == 3 and k[0] == "C" and k[1:].isdigit():
            CHECKS[k] = v
