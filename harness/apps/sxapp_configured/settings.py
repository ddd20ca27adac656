from django.apps import AppConfig


class Config(AppConfig):
    name = 'sxapp_configured'
    label = 'elsewhere'
