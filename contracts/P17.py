OPTS = {'*': {}, 'nextIntBoundFirst': {'peel': 'nextInt'}}
