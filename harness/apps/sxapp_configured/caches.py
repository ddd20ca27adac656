from django_cache_dependencies import registry
from harness import c25
registry.register([(c25.App.models['configured'], lambda o: o.tags)])
