import checks_grid, checks_elem, checks_flow, checks_solve, checks_safe, checks_wrap, checks_out, checks_state
