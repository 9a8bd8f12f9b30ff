SEEDS = [
]
