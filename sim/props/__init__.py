MODULES = {
    'P01': 'core', 'P02': 'core', 'P03': 'core', 'P12': 'core', 'P13': 'core', 'P16': 'core', 'P18': 'core',
    'P07': 'cont', 'P15': 'cont',
    'P04': 'repro',
    'P05': 'logs', 'P06': 'crash', 'P08': 'jsonio',
    'P09': 'par', 'P10': 'par', 'P11': 'parload',
    'P14': 'progress', 'P17': 'intervals', 'P19': 'share',
}
