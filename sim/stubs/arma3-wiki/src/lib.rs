use std::collections::HashMap;

use commands::Commands;
use model::{Command, EventHandlerNamespace, ParsedEventHandler, Version};

pub mod commands;
pub mod model;

pub struct Wiki {
    version: Version,
    // commands: HashMap<String, Command>,
    commands: Commands,
    event_handlers: HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>>,
    custom: Vec<String>,
    /// Whether the wiki was just updated.
    updated: bool,
}

impl Wiki {
    #[must_use]
    pub const fn version(&self) -> &Version {
        &self.version
    }

    #[must_use]
    pub const fn commands(&self) -> &Commands {
        &self.commands
    }

    #[must_use]
    pub const fn event_handlers(&self) -> &HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>> {
        &self.event_handlers
    }

    #[must_use]
    pub const fn updated(&self) -> bool {
        self.updated
    }

    #[must_use]
    pub fn load(force_pull: bool) -> Self {
        #[cfg(feature = "remote")]
        if let Ok(a3wiki) = Self::load_git(force_pull) {
            return a3wiki;
        }
        Self::load_dist()
    }

    pub fn add_custom_command(&mut self, command: Command) {
        let name = command.name().to_lowercase();
        self.custom.push(name.clone());
        self.commands.raw_mut().insert(name, command);
    }

    /// Adds a custom command to the wiki.
    ///
    /// # Errors
    /// Returns an error if the command could not be parsed.
    pub fn add_custom_command_parse(&mut self, command: &str) -> Result<Command, String> {
        let command: Command = serde_yaml::from_str(command).map_err(|e| format!("{e}"))?;
        self.add_custom_command(command.clone());
        Ok(command)
    }

    pub fn remove_command(&mut self, name: &str) -> bool {
        let name = name.to_lowercase();
        self.commands.raw_mut().remove(&name);
        if self.custom.contains(&name) {
            self.custom.retain(|c| c != &name);
            true
        } else {
            false
        }
    }

    #[must_use]
    pub fn is_custom_command(&self, name: &str) -> bool {
        self.custom.contains(&name.to_lowercase())
    }

    #[must_use]
    pub fn event_handler(&self, id: &str) -> Vec<(EventHandlerNamespace, &ParsedEventHandler)> {
        let mut handlers = Vec::new();
        for (ns, hs) in &self.event_handlers {
            if let Some(handler) = hs.iter().find(|h| h.id() == id) {
                handlers.push((*ns, handler));
            }
        }
        handlers
    }

    /// There is no network.
    pub fn load_git(_force_pull: bool) -> Result<Self, String> {
        Err("no network".to_string())
    }

    #[must_use]
    /// Loads the fixed data.
    pub fn load_dist() -> Self {
        #[derive(serde::Deserialize)]
        struct Data {
            version: String,
            commands: Vec<Command>,
            events: HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>>,
        }
        let data: Data = serde_yaml::from_str(include_str!("data.yml")).expect("data.yml");
        Self {
            version: Version::from_wiki(&data.version).expect("version"),
            commands: Commands::new(data.commands.into_iter().map(|c| (c.name().to_lowercase(), c)).collect()),
            event_handlers: data.events,
            custom: Vec::new(),
            updated: false,
        }
    }
}
