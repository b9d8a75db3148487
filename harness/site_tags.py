"""Tags of the templates of spec/Site.tla; context['site'] executes them."""
from django.template import Library, Node

register = Library()


@register.simple_tag(takes_context=True)
def leaf(context, name):
    return context['site'].token(name)


@register.simple_tag(takes_context=True)
def act(context, number):
    return context['site'].act(number)


class RecNode(Node):
    def __init__(self, number, nodelist):
        self.number, self.nodelist = number, nodelist

    def render(self, context):
        return context['site'].rec(self.number, lambda: self.nodelist.render(context))


@register.tag
def rec(parser, token):
    number = token.split_contents()[1]
    nodelist = parser.parse(('endrec',))
    parser.delete_first_token()
    return RecNode(number, nodelist)
