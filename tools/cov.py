import json,sys
e=json.load(open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/evidence/%s.json'%sys.argv[1]))
print({k:v for k,v in e["coverage"].items() if k not in("samples","rule")})
