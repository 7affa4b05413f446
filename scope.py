"""Which contract files carry the obligations of each property, and what is left to the bounded search."""
COMPONENTS = {
    'C01': ['trace', 'ctl'], 'C02': ['trace', 'ctl'], 'C03': ['trace', 'ctl'], 'C04': ['trace', 'ctl'], 'C05': ['trace', 'ctl'], 'C06': ['trace', 'load', 'ctl'],
    'C07': ['trace', 'ctl'], 'C08': ['aggregator', 'trace', 'ctl'], 'C09': ['jobs', 'gnuerr', 'mdfmt', 'exports', 'ctl', 'trace'], 'C10': ['jobs', 'mainc', 'ctl'],
    'C11': ['ctl', 'load'], 'C12': ['mdparse', 'ids'], 'C13': ['mdparse', 'ids'], 'C14': ['mdparse', 'ids'], 'C15': ['monoreq', 'ids'], 'C16': ['rustparse', 'ids'],
    'C17': ['gnuerr', 'exports', 'shows', 'trace', 'jobs'], 'C18': ['mdfmt', 'exports', 'shows', 'aggregator', 'trace', 'jobs'], 'C19': ['exports', 'mdfmt', 'shows', 'jobs'],
    'C20': ['trace', 'aggregator', 'gnuerr', 'mdfmt', 'exports', 'shows', 'load', 'ctl', 'jobs', 'mainc', 'mdparse', 'monoreq', 'rustparse'], 'C21': ['load', 'ctl'], 'C22': ['loc', 'shows'],
}
BOUNDED = {}
