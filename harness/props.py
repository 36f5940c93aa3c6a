"""Which harness decides which property."""
MC = 'model_checking'
REG = {
    'C01': ('continuation', 'check', MC),
    'C02': ('continuation', 'check', MC),
    'C03': ('continuation', 'check', MC),
    'C04': ('continuation', 'check', MC),
    'C05': ('continuation', 'check', MC),
    'C06': ('scaling', 'check', MC),
    'C07': ('symbolic', 'check', MC),
    'C08': ('symbolic', 'check', MC),
    'C09': ('symbolic', 'check', MC),
    'C10': ('symbolic', 'check', MC),
    'C11': ('mapping', 'check', MC),
    'C12': ('functors', 'check', MC),
    'C13': ('solvers', 'check', MC),
    'C14': ('solvers', 'check', MC),
    'C15': ('solvers', 'check', MC),
    'C16': ('flow', 'check', MC),
    'C17': ('trajectory', 'check', MC),
    'C18': ('solvers', 'check', MC),
    'C19': ('store', 'check', MC),
    'C20': ('mapping', 'check', MC),
    'C21': ('mapping', 'reduction', MC),
    'C22': ('calls', 'check', MC),
    'C23': ('declare', 'check', MC),
    'C24': ('guesses', 'check', MC),
    'C25': ('optimal', 'check', MC),
    'C26': ('numdiff', 'check', MC),
    'C27': ('logs', 'check', MC),
    'C28': ('geometry', 'check', MC),
    'C29': ('front', 'check', MC),
    'C30': ('compiled', 'check', MC),
}
