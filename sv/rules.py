RULES = {
    'C01': ('r_caps', 'C01'),
    'C02': ('r_args', 'C02'),
    'C03': ('r_limits', 'C03'),
    'C05': ('r_loops', 'C05'),
    'C06': ('r_map', 'C06'),
    'R01': ('r_run', 'R01'),
    'R02': ('r_run', 'R02'),
    'R03': ('r_keep', 'R03'),
    'R04': ('r_out', 'R04'),
    'R09': ('r_queue', 'R09'),
    'R10': ('r_queue', 'R10'),
    'R11': ('r_req', 'R11'),
    'C04': ('r_jumps', 'C04'),
    'C12': ('r_tests', 'C12'),
    'R05': ('r_effects', 'R05'),
    'C10': ('r_names', 'C10'),
    'C11': ('r_lex', 'C11'),
    'R06': ('r_inject', 'R06'),
    'R07': ('r_events', 'R07'),
    'C13': ('r_fields', 'C13'),
    'C14': ('r_text', 'C14'),
    'R12': ('r_vacation', 'R12'),
    'C07': ('r_expr', 'C07'),
    'R14': ('r_settings', 'R14'),
    'R15': ('r_refs', 'R15'),
    'R16': ('r_flags', 'R16'),
    'R17': ('r_modify', 'R17'),
    'R08': ('r_change', 'R08'),
    'R13': ('r_change', 'R13'),
}
