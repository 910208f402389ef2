"""Static analysis framework for plaschem / pygmo_fwork (stdlib ast only, nothing of /repo is imported)."""
