MODULES = ['c18', 'c19', 'core', 'c03', 'c06', 'c11', 'c21', 'c12', 'c13', 'c15', 'c17', 'c16', 'c20', 'c08', 'c09', 'c10', 'c14', 'c22']
