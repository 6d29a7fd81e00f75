JAVASCRIPT_IDS = {f"P{n}" for n in range(34, 45)}
