IDS = ["C26", "C27", "C28", "C29", "C30", "C38"]
