import c03
LEVEL = 'model_checking'
def run(ctx): c03.run(ctx, 'log')
