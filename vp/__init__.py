MODULES = ("checks_copy", "checks_bmap", "checks_map", "checks_read", "checks_cli", "checks_left", "checks_auth", "checks_together", "checks_said", "checks_memory", "checks_places")
