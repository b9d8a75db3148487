"""URL configuration of the pages served through the handler of Django."""
from django.conf.urls import url

view = [None]
Update = None
pending = None     # what the module verifapp.caches registers


def serve(request):
    return view[0](request)


urlpatterns = [url(r'', serve)]
