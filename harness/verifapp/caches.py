"""Found by autodiscover()."""
import venv_urls

venv_urls.pending()
